"""YAML documents generated together with their meaning.

A document is a tree of Map / Seq / Sc nodes emitted as segments: literal
text and integers (the region of translatable scalar i)."""
from __future__ import unicode_literals

import yaml


class Sc(object):
    """A scalar.  raw(indent) is the text of the region; ``pre`` stands in
    front of it (an anchor), ``post`` behind it (a comment)."""

    def __init__(self, raw, value, style="", tag=None, pre="", post="",
                 ignored=False, block=False, anchor=None, canonical=True):
        self.raw = raw if callable(raw) else (lambda n: raw)
        self.value, self.style, self.tag = value, style, tag
        self.pre, self.post, self.block = pre, post, block
        self.ignored, self.anchor, self.canonical = ignored, anchor, canonical


class Alias(object):
    def __init__(self, name):
        self.name = name


class Map(object):
    """items: [(Key, node, comment lines)]"""

    def __init__(self, items, flow=False, anchor=None, ignored=None,
                 pre=""):
        self.items, self.flow, self.anchor = items, flow, anchor
        self.pre = pre


class Seq(object):
    def __init__(self, items, flow=False, anchor=None, pre=""):
        self.items, self.flow, self.anchor = items, flow, anchor
        self.pre = pre


class Key(object):
    def __init__(self, raw, path, value):
        self.raw, self.path, self.value = raw, path, value


def K(name):
    return Key(name, name, name)


def counted(child):
    """List indexes count texts and collections only."""
    if isinstance(child, Sc):
        return not child.ignored or child.value == ""
    return 1


class Emit(object):
    """step: indentation of nested blocks; sstep: indentation of a block
    sequence inside a mapping; dash: text after the dash."""

    def __init__(self, root, step=2, sstep=2, dash="- ", head="", foot="\n",
                 root_path=True, skip_root_key=False):
        self.step, self.sstep, self.dash = step, sstep, dash
        self.segs, self.strings = [head], []
        self.root = root
        self.last = ""          # last literal text, for line tracking
        self.skip = skip_root_key
        self.node(root, 0, [], [], True)
        if foot and not self._at_line_start():
            self.lit(foot)

    def lit(self, t):
        self.segs.append(t)
        if t:
            self.last = t

    def _at_line_start(self):
        return self.last.endswith("\n")

    def scalar(self, sc, indent, path, styles, comment=""):
        if isinstance(sc, Alias):
            self.lit("*" + sc.name)
            return
        self.lit(sc.pre)
        raw = sc.raw(indent)
        if sc.ignored or not sc.value:
            self.lit(raw)
        else:
            self.strings.append(dict(
                key=".".join(path), value=sc.value, tag=sc.tag or "",
                style=":".join(styles + [sc.style]), raw=raw, sc=sc,
                comment=comment, indent=indent))
            self.segs.append(len(self.strings) - 1)
            if raw:
                self.last = raw
        if sc.post and not sc.block:
            self.lit(sc.post)

    def node(self, n, indent, path, styles, fresh, comment=""):
        """fresh: the node starts a line at column indent (already there)"""
        if isinstance(n, (Sc, Alias)):
            return self.scalar(n, indent, path, styles, comment)
        style = ("flow" if n.flow else "block")
        if n.flow:
            self.lit(n.pre)
            return self.flow(n, indent, path, styles, comment)
        first = True
        if isinstance(n, Map):
            for key, child, comments in n.items:
                if not first or not fresh:
                    self.line(indent)
                note = ""
                if comments:
                    for i, c in enumerate(comments):
                        self.lit("#" + c)
                        self.line(indent)
                    note = " ".join(c.strip() for c in comments)
                first = False
                self.lit(key.raw + ":")
                sub = path + [key.path]
                if self.skip and not path and n is self.root:
                    sub = []
                self.value(child, indent, sub, styles, note, n)
        else:
            index = 0
            for i, child in enumerate(n.items):
                comments = []
                if isinstance(child, tuple):
                    child, comments = child
                if not first or not fresh:
                    self.line(indent)
                note = ""
                if comments:
                    for c in comments:
                        self.lit("#" + c)
                        self.line(indent)
                    note = " ".join(c.strip() for c in comments)
                first = False
                self.lit(self.dash)
                sub = path + ["[%d]" % index]
                index += counted(child)
                if isinstance(child, (Map, Seq)):
                    if not child.flow:
                        self.lit(child.pre)
                    st = styles + ["flow" if child.flow else "block"]
                    if child.flow or not child.pre:
                        self.node(child, indent + len(self.dash), sub, st,
                                  True, note)
                    else:
                        self.line(indent + self.step)
                        self.node(child, indent + self.step, sub, st, True)
                else:
                    self.scalar(child, indent + self.step, sub, styles, note)

    def value(self, child, indent, sub, styles, note, parent):
        if isinstance(child, (Sc, Alias)):
            if isinstance(child, Alias) or child.raw(0) or child.pre:
                self.lit(" ")
            self.scalar(child, indent + self.step, sub, styles, note)
        elif child.flow:
            self.lit(" ")
            self.node(child, indent, sub, styles + ["flow"], True, note)
        else:
            if child.pre:
                self.lit(" " + child.pre.rstrip())
            st = styles + ["block"]
            ind = indent + (self.step if isinstance(child, Map)
                            else self.sstep)
            if not child.items:
                raise ValueError("empty block")
            self.line(ind)
            self.node(child, ind, sub, st, True)

    def flow(self, n, indent, path, styles, comment):
        # comments inside flow collections are not generated
        self.lit("{" if isinstance(n, Map) else "[")
        note, index = comment, 0
        for i, it in enumerate(n.items):
            if i:
                self.lit(", ")
            if isinstance(n, Map):
                key, child, _ = it
                self.lit(key.raw + ": ")
                sub = path + [key.path]
            else:
                child, sub = it, path + ["[%d]" % index]
                index += counted(child)
            if isinstance(child, (Sc, Alias)):
                self.scalar(child, indent, sub, styles, note)
            else:
                self.lit(child.pre)
                self.flow(child, indent, sub, styles + ["flow"], note)
            note = None         # free
        self.lit("}" if isinstance(n, Map) else "]")

    def line(self, indent):
        if not self._at_line_start() and self.last != "":
            self.lit("\n")
        if indent:
            self.lit(" " * indent)

    # -- results --------------------------------------------------------
    def fill(self, fn):
        return "".join(s if not isinstance(s, int) else fn(s)
                       for s in self.segs)

    def source(self):
        return self.fill(lambda i: self.strings[i]["raw"])

    def literals(self):
        out, cur = [], ""
        for s in self.segs:
            if isinstance(s, int):
                out.append(cur)
                cur = ""
            else:
                cur += s
        return out + [cur]

    def meaning(self, values):
        """The tree as plain Python data with the given translations."""
        ids = {id(s["sc"]): i for i, s in enumerate(self.strings)}
        anchors = {}

        def walk(n):
            if isinstance(n, Alias):
                return anchors[n.name]
            if isinstance(n, Sc):
                v = n.value
                if id(n) in ids:
                    v = values[ids[id(n)]]
                if n.tag:
                    v = ("!", n.tag, v)
            elif isinstance(n, Map):
                v = {}
                for key, child, _ in n.items:
                    if key.value == "<<":
                        for k, x in walk(child).items():
                            v.setdefault(k, x)
                    else:
                        v[key.value] = walk(child)
            else:
                v = [walk(c[0] if isinstance(c, tuple) else c)
                     for c in n.items]
            if n.anchor:
                anchors[n.anchor] = v
            return v
        return walk(self.root)


class Loader(yaml.SafeLoader):
    pass


def _tagged(loader, suffix, node):
    if isinstance(node, yaml.ScalarNode):
        return ("!", suffix, node.value) if suffix else node.value
    if isinstance(node, yaml.SequenceNode):
        return ("!", suffix, loader.construct_sequence(node, deep=True))
    return ("!", suffix, loader.construct_mapping(node, deep=True))


Loader.add_multi_constructor("!", _tagged)
for _name in ("float", "binary"):
    pass


def load(text):
    return yaml.load(text, Loader=Loader)


def strict(v):
    """Distinguishes 1, True and "1"."""
    if isinstance(v, dict):
        return ["map"] + sorted([(strict(k), strict(x))
                                 for k, x in v.items()], key=repr)
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [strict(x) for x in v]
    return (type(v).__name__, v)
