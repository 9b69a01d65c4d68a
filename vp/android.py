"""Android string resources with a known structure.

``Res`` is a <resources> file built from children; it predicts the stringset,
the template and the compiled file for any subset of translations."""
from __future__ import unicode_literals

from vp.docs import S

RULES = ["zero", "one", "two", "few", "many", "other"]
NUM = {r: i for i, r in enumerate(RULES)}


class Comment(object):
    def __init__(self, text):
        self.text = text


class Other(object):
    """Anything that is not translated: other resources, ignored strings,
    strings that are empty in the source."""

    def __init__(self, raw, kind="other", comment_reset=False):
        self.raw, self.kind, self.comment_reset = raw, kind, comment_reset


class Str(object):
    def __init__(self, name, raw, product=None, extra="", q='"', order="np"):
        self.name, self.raw, self.product = name, raw, product
        self.open = tag_open("string", name, product, extra, q, order)
        self.close = "</string>"


class Arr(object):
    """items: raw texts (None: single tag, "" or blank: empty item)."""

    def __init__(self, name, items, product=None, start="\n    ",
                 sep="\n    ", end="\n  ", item_attr="", comments=False):
        self.name, self.items, self.product = name, items, product
        self.open = tag_open("string-array", name, product)
        self.start, self.sep, self.end = start, sep, end
        self.item_open = "<item%s>" % item_attr
        self.comments = comments

    def item(self, i):
        """(text before the region, text after, tail)"""
        tail = self.end if i == len(self.items) - 1 else self.sep
        if self.items[i] is None:
            return None, "<item />", tail
        return self.item_open, "</item>", tail


class Plu(object):
    def __init__(self, name, forms, product=None, start="\n    ",
                 end="\n  ", sep=None, inner=None):
        self.name, self.forms, self.product = name, forms, product
        self.open = tag_open("plurals", name, product)
        self.start, self.end = start, end
        self.sep = start if sep is None else sep
        self.inner = inner

    def raw(self):
        return self.sep.join('<item quantity="%s">%s</item>' % f
                             for f in self.forms)

    def render(self, value):
        return self.start.join(
            '<item quantity="%s">%s</item>' % (RULES[r], t)
            for r, t in value.items())


def tag_open(tag, name, product=None, extra="", q='"', order="np"):
    n = " name=%s%s%s" % (q, name, q)
    p = "" if product is None else " product=%s%s%s" % (q, product, q)
    return "<%s%s%s>" % (tag, (n + p) if order == "np" else (p + n), extra)


def escape_name(name):
    return name.replace("\\", "\\\\").replace("[", "\\[")


class Res(object):
    def __init__(self, children, head="", root="<resources>", gap="\n  ",
                 last="\n", foot="\n"):
        self.children, self.head, self.root = children, head, root
        self.gap, self.last, self.foot = gap, last, foot
        self.strings = []
        self.index = {}
        comment = ""
        seen = {}
        for ci, c in enumerate(children):
            if isinstance(c, Comment):
                comment = c.text
                continue
            if isinstance(c, Other):
                if c.comment_reset:
                    comment = ""
                continue
            found = []
            if isinstance(c, Str):
                found = [(None, escape_name(c.name), c.raw, None)]
            elif isinstance(c, Arr):
                found = [(i, "%s[%d]" % (escape_name(c.name), i), t, None)
                         for i, t in enumerate(c.items) if t and t.strip()]
            elif isinstance(c, Plu):
                found = [(None, escape_name(c.name),
                          {NUM[r]: t for r, t in c.forms}, c)]
            kind = {Str: "string", Arr: "string-array",
                    Plu: "plurals"}[type(c)]
            for i, key, value, plu in found:
                context = c.product or ""
                if (key, context) in seen and seen[key, context] != kind:
                    context += kind
                seen.setdefault((key, context), kind)
                self.index[ci, i] = len(self.strings)
                if plu is None:
                    s = S(key, value, context=context,
                          developer_comment=comment)
                else:
                    s = S(key, plu.raw(), value, plu.render,
                          pluralized=True, context=context,
                          developer_comment=comment)
                self.strings.append(s)
            if found:
                comment = ""

    def child(self, ci, fill, keep):
        """Text of one child or None when it is removed.  ``fill(i)`` gives
        the text of string i, ``keep(i)`` whether it is there."""
        c = self.children[ci]
        if isinstance(c, Comment):
            return "<!--%s-->" % c.text
        if isinstance(c, Other):
            return c.raw
        if isinstance(c, Str):
            i = self.index[ci, None]
            return c.open + fill(i) + c.close if keep(i) else None
        if isinstance(c, Plu):
            i = self.index[ci, None]
            return (c.open + c.start + fill(i) + c.end + "</plurals>"
                    if keep(i) else None)
        # array
        mine = [self.index.get((ci, k)) for k in range(len(c.items))]
        real = [m for m in mine if m is not None]
        if real and not any(keep(m) for m in real):
            return None
        out = c.open + c.start
        parts = []
        for k, m in enumerate(mine):
            a, b, tail = c.item(k)
            if m is None:
                body = b if a is None else a + c.items[k] + b
            elif keep(m):
                body = a + fill(m) + b
            else:
                continue
            parts.append([body, tail])
        if parts:
            parts[-1][1] = c.end
        return out + "".join(a + b for a, b in parts) + "</string-array>"

    def text(self, fill, keep=lambda i: True, drop_ignored=False):
        out, pending = self.head + self.root + (
            self.gap if self.children else self.last), ""
        n = len(self.children)
        for ci, c in enumerate(self.children):
            tail = self.last if ci == n - 1 else self.gap
            if isinstance(c, Comment):
                pending += self.child(ci, fill, keep) + tail
                continue
            t = self.child(ci, fill, keep)
            if drop_ignored and isinstance(c, Other) and c.kind == "ignored":
                t = None
            if t is not None:
                out += pending + t + tail
            pending = ""
        return out + pending + "</resources>" + self.foot

    def source(self):
        return self.text(lambda i: self.strings[i].raw)

    def template(self, got):
        return self.text(lambda i: got[i].template_replacement)

    def compiled(self, values, keep=lambda i: True, drop_ignored=False):
        return self.text(lambda i: self.strings[i].render(values[i]), keep,
                         drop_ignored)
