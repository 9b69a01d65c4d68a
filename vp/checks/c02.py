"""C02 - the newline style of a file decides nothing but its newlines."""
from __future__ import unicode_literals

import re

from vp import corpus
from vp.core import expect
from vp.docs import dos

LEN = {"quick": 3, "thorough": 4}
TEXT = {"plain": "T%d", "lines": "T%d\nmore", "space": " T%d \n"}


def bounds(tier):
    return {"formats": [f.name for f in corpus.FORMATS],
            "units": {f.name: len(f.units) for f in corpus.FORMATS},
            "documents": "every sequence of up to %d units" % LEN[tier],
            "indentation": "as in the units, and (of documents of up to two "
            "units) doubled", "translations": TEXT}


def look(f, src, text):
    """Everything that can be seen of parsing and compiling src."""
    from openformats.exceptions import ParseError
    from openformats.strings import OpenString
    try:
        template, strings = f.parse(src)
    except ParseError as e:
        return ("error", str(e)), None, None, None
    seen = [(s.key, s.context, s.string, s.pluralized, s.order,
             s.developer_comment, s.character_limit, s.occurrences, s.flags,
             s.tags, s.string_hash) for s in strings]
    trans = []
    for i, s in enumerate(strings):
        value = ({r: text % i for r in s.string} if s.pluralized
                 else text % i)
        o = OpenString(s.key, value, pluralized=s.pluralized)
        for a in ("context", "order", "character_limit", "occurrences",
                  "developer_comment", "flags", "tags"):
            setattr(o, a, getattr(s, a))
        trans.append(o)
    show = str if f.name in ("po", "pot") else (lambda t: t)
    before = show(template)
    same = f.compile(template, strings)
    if f.name in ("po", "pot"):
        template = f.parse(src)[0]
    return ("ok", seen), before, same, f.compile(template, trans)


def wide(src):
    """Twice as much indentation."""
    return re.sub("(?m)^( +)", r"\1\1", src)


def trace(ctx, f, units, text, change=None):
    src = f.doc(units)
    if change:
        src = change(src)
    ctx.step(6)
    lf = look(f, src, TEXT[text])
    crlf = look(f, dos(src), TEXT[text])
    det = dict(format=f.name, source=src, text=text)
    expect(crlf[0], lf[0], "strings of a DOS file", **det)
    if lf[0][0] == "error":
        ctx.outcome(lf[0])
        return
    if "\n" in src and f.name not in ("po", "pot") and "\n" not in lf[1]:
        return    # see trace_probe
    keep = f.name in ("po", "pot") or "\n" not in src
    for what, u, d in zip(("template", "compiled file", "translated file"),
                          lf[1:], crlf[1:]):
        expect(d, u if keep else dos(u), what + " of a DOS file", **det)
    ctx.outcome(lf[3])


def trace_probe(src):
    """A template without newlines does not tell their style."""
    f = corpus.BY_NAME["yaml"]
    template, strings = f.parse(dos(src))
    expect(f.compile(template, strings), dos(src), "newlines")


def shards(tier):
    return [("probe",)] + [(f.name, i) for f in corpus.FORMATS
            for i in range(max(1, len(f.units)))]


def explore(ctx, shard):
    if shard[0] == "probe":
        ctx.distinct()
        src = "a: |\n  text\n"
        ctx.case(trace_probe, src, replay=src,
                 signature="C02:yaml 'a: |' CRLF '  text' CRLF")
        return
    f = corpus.BY_NAME[shard[0]]
    first = f.units[shard[1]][0]
    for units in f.docs(LEN[ctx.tier]):
        if (units[0] if units else f.units[0][0]) != first:
            continue
        for text in sorted(TEXT):
            ctx.distinct()
            ctx.case(trace, ctx, f, units, text, replay=(f.name, units, text))
            if len(units) < 3 and wide(f.doc(units)) != f.doc(units):
                ctx.distinct()
                ctx.case(trace, ctx, f, units, text, wide,
                         replay=(f.name, units, text, "wide"))
    ctx.scope(f.name)
