"""Segment documents: the reference model shared by the format checks.

A document is generated together with everything the handler should say about
it.  ``Doc.segs`` is a list of literal texts and integers; the integer ``i``
stands for the region of translatable string ``i``.  From that alone follow,
without looking at the implementation:

* the source file           (each region filled with its source text)
* the stringset             (key, text / plural forms, attributes, order)
* the template              (each region filled with the placeholder)
* the compiled file for any translation (each region filled with the render)
"""
from __future__ import unicode_literals

from vp.core import Violation, expect

ATTRS = ("context", "developer_comment", "character_limit", "occurrences",
         "flags", "fuzzy", "obsolete", "tags")
DEFAULTS = {"context": "", "developer_comment": "", "character_limit": None,
            "occurrences": None, "flags": "", "fuzzy": False,
            "obsolete": False, "tags": None}


class S(object):
    """One expected translatable string.

    raw      the text in the source region
    value    text, or {rule number: text} when pluralised
    render   value -> text of the region in a compiled file
    """

    def __init__(self, key, raw, value=None, render=None, pluralized=None,
                 **attrs):
        self.key = key
        self.raw = raw
        self.value = raw if value is None else value
        self.render = render or (lambda v: v)
        self.pluralized = (isinstance(self.value, dict)
                           if pluralized is None else pluralized)
        self.attrs = dict(DEFAULTS)
        self.attrs.update(attrs)
        self.check_attrs = set(ATTRS)

    def describe(self):
        d = {"key": self.key, "value": self.value}
        for k, v in self.attrs.items():
            if v != DEFAULTS[k]:
                d[k] = v
        return d


class Doc(object):
    def __init__(self, segs, strings, meta=None):
        # merge literals
        out = []
        for s in segs:
            if isinstance(s, int) or not out or isinstance(out[-1], int):
                if s != "":
                    out.append(s)
            else:
                out[-1] = out[-1] + s
        self.segs = out
        self.strings = strings
        self.meta = meta

    def fill(self, fn):
        return "".join(s if not isinstance(s, int) else fn(s)
                       for s in self.segs)

    def source(self):
        return self.fill(lambda i: self.strings[i].raw)

    def compiled(self, values):
        return self.fill(
            lambda i: self.strings[i].render(values[i]))

    def template(self, got):
        return self.fill(lambda i: got[i].template_replacement)


def dos(text):
    return text.replace("\r\n", "\n").replace("\n", "\r\n")


def attr(s, name):
    return getattr(s, name)


def compare_stringset(got, want, src):
    if len(got) != len(want):
        raise Violation(
            "stringset has %d strings, expected %d" % (len(got), len(want)),
            source=src, got=[(g.key, g.string) for g in got],
            want=[w.describe() for w in want])
    last = None
    for i, (g, w) in enumerate(zip(got, want)):
        expect(g.key, w.key, "key of string %d" % i, source=src)
        expect(bool(g.pluralized), w.pluralized,
               "pluralized flag of string %d" % i, source=src)
        expect(g.string, w.value, "text of string %d" % i, source=src)
        for a in ATTRS:
            if a in w.check_attrs:
                gv, wv = getattr(g, a), w.attrs[a]
                if gv != wv and not (not gv and not wv):
                    raise Violation("%s of string %d" % (a, i), source=src,
                                    got=gv, want=wv)
        if g.order is None or (last is not None and g.order <= last):
            raise Violation("order numbers are not strictly increasing",
                            source=src, got=[x.order for x in got])
        last = g.order


def translated(got, i, value):
    """A copy of string ``got[i]`` as a translation with text ``value``."""
    from openformats.strings import OpenString
    g = got[i]
    return OpenString(
        g.key, value, pluralized=g.pluralized,
        **{a: getattr(g, a) for a in ATTRS + ("order",)})


def check_parse(ctx, new, doc, src, parse_kwargs=None):
    h = new()
    ctx.step()
    template, got = h.parse(src, **(parse_kwargs or {}))
    got = list(got)
    compare_stringset(got, doc.strings, src)
    return h, template, got


def check_doc(ctx, new, doc, translations=(), template=True, roundtrip=True,
              newline="both", parse_kwargs=None, compile_kwargs=None):
    """One complete trace: parse -> compile(source) -> compile(each
    translation).  ``translations`` is a list of functions
    (index, S) -> value."""
    forms = []
    src = doc.source()
    if newline in ("unix", "both"):
        forms.append(("unix", lambda t: t))
    if newline in ("dos", "both") and "\n" in src:
        forms.append(("dos", dos))
    result = None
    for name, conv in forms:
        text = conv(src)
        h, tmpl, got = check_parse(ctx, new, doc, text, parse_kwargs)
        if result is None:
            result = (tmpl, got)
        if template:
            expect(tmpl, conv(doc.template(got)), "template", source=text)
        ck = compile_kwargs or {}
        if roundtrip:
            ctx.step()
            out = h.compile(tmpl, iter(got), **ck)
            expect(out, conv(doc.compiled([s.value for s in doc.strings])),
                   "compiling the unchanged strings", source=text,
                   template=tmpl)
            ctx.outcome(out)
        for t in translations:
            vals = [t(i, s) for i, s in enumerate(doc.strings)]
            objs = [translated(got, i, v) for i, v in enumerate(vals)]
            ctx.step()
            out = new().compile(tmpl, objs, **ck)
            expect(out, conv(doc.compiled(vals)),
                   "compiling a translation", source=text, template=tmpl,
                   translation=vals)
            ctx.outcome(out)
    return result
