"""C32 - XLSX: sheet names, cells, rich text, links and formulas."""
from __future__ import unicode_literals

import itertools

from vp import ooxml
from vp.core import Violation, expect
from vp.docs import translated
from vp.ooxml import formula, members, read_xlsx, ref, xlsx

U1, U2 = "http://a.b/?x=1&y=2", "https://c.d/R's_Cube"
URLS = ["http://a.b/c/", "http://A.B/%20\u00fc?#", "mailto:a@b.c",
        "file:///C:\\x\\", "../a b.xlsx", "x"]
TEXTS = ["W", " W", "W ", "W <&> \"W' \u03b1\U0001F600", "W\nW", " ", "",
         "\u00a0W", "W%s\\1{}"]
RICH = ["W", " W", "W ", " ", "", "W <&>\"'"]


def cells(tier):
    out = []
    for url in (None, U1, U2, "#Sheet2!A1"):
        for t in TEXTS:
            out += [("s", (t,), url), ("i", (t,), url)]
    n = 4 if tier == "thorough" else 3
    for k in range(1, n + 1):
        for texts in itertools.product(RICH, repeat=k):
            for url in (None, U1) if k < 3 or tier == "thorough" else (None,):
                out += [("sr", texts, url), ("ir", texts, url)]
    links = ["http://x.y/", "http://x/?a=\"b\"", "#Sheet2!A1", "a&b"]
    texts = ["W", "W \"W\" W", "W & <W>", "W)W(", "W,W"]
    for before, after in (("", ""), ("IF(A1,", ",\"no\")"), ("\"a\"&", ""),
                          ("HYPERLINK(A1,\"x\")&", "&F(\"y\",\"z\")")):
        for link in links:
            for text in texts:
                out.append(("f", (before, link, text, after), None))
    for f in ("A1&\"x\"", "HYPERLINK(A1,B1)", "HYPERLINK(\"a\"&B1,\"x\")",
              "HYPERLINK(\"a\"&B1,\"x\")&F(\"y\",\"z\")",
              "HYPERLINK(\"http://a\")"):
        out += [("F", f, None), ("F", f, U1)]
    out += [("n", "12", None), ("n", "12", U1), ("b", None, None),
            ("o", None, None), ("o", None, U2)]
    for url in URLS:
        out += [("s", ("W",), url), ("i", ("W",), url), ("n", "1", url),
                ("o", None, url)]
    return out


def H():
    from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
    return XlsxUnstructuredHandler()


def bounds(tier):
    return {"cells": len(cells(tier)), "rich text": "every sequence of up to "
            "%d runs over %r" % (4 if tier == "thorough" else 3, RICH),
            "translations": sorted(MODES), "workbooks": "every sequence of "
            "cells that share texts with each other, in up to 2 sheets; "
            "every order of sheets, files and names",
            "missing translations": "none, every other, all"}


def wrap(text, url=None):
    quote = '"' if url and "'" in url else "'"
    return "<tx%s>%s</tx>" % (
        " href=%s%s%s" % (quote, url, quote) if url else "", text)


def external(url):
    return url if url and not url.startswith("#") else None


def string_of(cell):
    """What is extracted from a cell."""
    kind, texts, url = cell
    if kind == "f":
        return wrap(texts[2], texts[1])
    if kind in ("s", "sr", "i", "ir", "S"):
        s = (texts[0] if len(texts) == 1 else
             "".join(wrap(t) for t in texts))
        return wrap(s, external(url)) if s and external(url) else s
    return ""


def parts_of(cell):
    kind, texts, url = cell
    if kind == "f":
        return [texts[2]]
    return [t for t in texts if t]


# -- translations: (parts, url) from (parts, url)

def same(parts, url, n):
    return parts, url


def words(parts, url, n):
    return ["T%dx%d" % (i, n) for i, p in enumerate(parts)], url


def spaces(parts, url, n):
    return [" T%dx%d " % (i, n) for i, p in enumerate(parts)], url


def gaps(parts, url, n):
    out = []
    for i, p in enumerate(parts):
        out += [" "] * bool(i) + ["T%dx%d" % (i, n)]
    return out, url


def special(parts, url, n):
    return ["<T%d & &amp; \"x\" 'y' \u05d0\U0001F600 </x> %%s \\1>" % i
            for i, p in enumerate(parts)], url


def fewer(parts, url, n):
    return words(parts, url, n)[0][:-1] or ["F"], url


def more(parts, url, n):
    return words(parts, url, n)[0] + [" M1", " ", "M2"], url


def relinked(parts, url, n):
    return words(parts, url, n)[0], url and url + "/%d?a=1&b=" % n


def unlinked(parts, url, n):
    return words(parts, url, n)[0], None


MODES = {f.__name__: f for f in (
    same, words, spaces, gaps, special, fewer, more, relinked, unlinked)}


def markup(parts, url):
    s = parts[0] if len(parts) == 1 else "".join(wrap(p) for p in parts)
    return wrap(s, url) if url else s


def trace(ctx, sheets, mode, skip=None, **layout):
    pool = layout.get("pool", ())
    exp, src = xlsx(sheets, **layout)
    numbers = layout.get("numbers") or list(range(1, len(sheets) + 1))
    ctx.step(2)
    tmpl, got = H().parse(src)
    # strings in the order of their first place, with all their sheets
    want, place = [], {}
    for name, _ in exp:
        if name not in place:
            place[name] = []
            want.append(name)
        place[name].append(name)
    for number, (name, here) in sorted(zip(numbers, exp)):
        for cell in here:
            s = string_of(cell)
            if not s:
                continue
            if s not in place:
                place[s] = []
                want.append(s)
            if name not in place[s]:
                place[s].append(name)
    expect([(g.key, g.string, g.developer_comment, g.order) for g in got],
           [(s, s, ", ".join(place[s]), n) for n, s in enumerate(want)],
           "strings", sheets=sheets)
    names = [n for n, _ in members(src)]
    expect([n for n, _ in members(tmpl)], names, "files of the template")
    before = read_xlsx(src)
    value = {}
    cellof = {}
    for number, (name, here) in zip(numbers, exp):
        for k, cell in enumerate(here):
            cellof.setdefault(string_of(cell), cell)
    trans = []
    for i, g in enumerate(got):
        if skip is not None and i % 2 == skip or skip == 2:
            continue
        cell = cellof.get(g.string)
        if g.string in [n for n, _ in exp]:
            # a name of a sheet that may be the text of a cell as well
            value[g.string] = ("N%d" % i if mode != "same" else g.string,
                               ["N%d" % i if mode != "same" else g.string],
                               cell and external(cell[2]))
        else:
            url = cell[1][1] if cell[0] == "f" else external(cell[2])
            parts, u = MODES[mode](parts_of(cell), url, i)
            if not parts:
                parts = [""]
            if any(not p.strip() and len(p) > 1 for p in parts):
                continue
            value[g.string] = (g.string if mode == "same" else
                               markup(parts, u), parts, u)
        trans.append(translated(got, i, value[g.string][0]))
    ctx.step()
    out = H().compile(tmpl, trans)
    ctx.outcome(out)
    expect([n for n, _ in members(out)], names, "files")
    omem, smem = dict(members(out)), dict(members(src))
    for n in ("[Content_Types].xml", "xl/media/i.png",
              "xl/_rels/workbook.xml.rels"):
        expect(omem[n], smem[n], n)
    after = read_xlsx(out)
    expect(after[3], [], "attributes of the template", sheets=sheets)
    expect(after[1], [value[n][0] if n in value else n for n, _ in exp],
           "sheet names")
    for number, (name, here) in zip(numbers, exp):
        part = "xl/worksheets/sheet%d.xml" % number
        expect(sorted(after[0][part]), sorted(before[0][part]), "cells")
        for k, cell in enumerate(here):
            a, b = after[0][part][ref(k)], before[0][part][ref(k)]
            s = string_of(cell)
            det = dict(cell=cell, mode=mode, sheets=sheets, string=s,
                       translation=value.get(s))
            if s not in value or mode == "same":
                expect(a, b, "cell", **det)
                continue
            text, parts, url = value[s]
            if cell[0] == "f":
                expect(a, (b[0], b[1], b[2], formula(
                    cell[1][0], url or cell[1][1], "".join(parts),
                    cell[1][3]), b[4]), "formula", **det)
                continue
            expect((a[2], a[3], a[4]), (
                url if url and external(b[2]) else b[2], b[3], b[4]),
                "link, formula and value", **det)
            expect(a[1], b[1], "formats", **det)
            expect("".join(a[0]), "".join(parts), "text", **det)
            full = [t for t in cell[1] if t]
            if len(parts) == len(full) and [
                    bool(p.strip()) for p in parts] == [
                        bool(t.strip()) for t in full]:
                it = iter(parts)
                expect(a[0], [next(it) if t else "" for t in cell[1]],
                       "texts", **det)
    if mode == "same" and skip is None:
        t2, again = H().parse(out)
        expect([(g.string, g.developer_comment) for g in again],
               [(g.string, g.developer_comment) for g in got],
               "strings of the compiled file", sheets=sheets)


BATCH = 45


def batch(ctx, some, mode, skip):
    try:
        trace(ctx, [("One", some)], mode, skip)
    except Exception:
        found = ctx.nviol
        for c in some:
            ctx.case(trace, ctx, [("One", [c])], mode, skip,
                     replay=(c, mode, skip))
        if ctx.nviol == found:
            raise


def trace_rtl(ctx, rtl, view):
    exp, src = xlsx([("One", [("s", ("W",), None)]), ("Two", [])], view=view)
    tmpl, got = H().parse(src)
    ctx.step(2)
    out = H().compile(tmpl, list(got), **({} if rtl is None else
                                          {"is_rtl": rtl}))
    for part, values in read_xlsx(out)[2].items():
        for v in values:
            if v not in ("true", "1") if rtl else v not in (
                    "false", "0", None):
                raise Violation("orientation of sheet %s" % part, got=v,
                                rtl=rtl, view=view)
        expect(len(values), 0 if view is None else 1, "views")
    ctx.outcome((rtl, view))


SHARED = ((("one",), False), (("two", " b"), True), (("One",), False))
LINKED = [("S", i, u) for i in range(3) for u in (None, U1, "#A1")] + [
    ("i", ("one",), None), ("i", ("one",), U1), ("n", "1", None)]


def shards(tier):
    ooxml.scratch()
    out = [("cells", m, k) for m in sorted(MODES) for k in (None, 0, 2)]
    out += [("share", a) for a in range(len(LINKED))]
    out += [("books",), ("rtl",)]
    return out


def explore(ctx, shard):
    if shard[0] == "cells":
        pool = cells(ctx.tier)
        for i in range(0, len(pool), BATCH):
            some = pool[i:i + BATCH]
            ctx.distinct(len(some))
            ctx.case(batch, ctx, some, shard[1], shard[2],
                     replay=(shard, i))
        ctx.scope("cells")
        ctx.sample(list(shard))
    elif shard[0] == "share":
        first = LINKED[shard[1]]
        seqs = [(first,)] + [(first, b) for b in LINKED] + [
            (first, b, c) for b in LINKED for c in LINKED]
        modes = sorted(MODES) if ctx.thorough else ["same", "words"]
        for seq in seqs:
            for cut in range(1, len(seq) + 1):
                sheets = [("One", list(seq[:cut])), ("Two", list(seq[cut:]))]
                for mode in modes:
                    for skip in (None, 0, 1) if mode == "words" else (None,):
                        ctx.distinct()
                        ctx.case(trace, ctx, sheets, mode, skip, pool=SHARED,
                                 replay=(sheets, mode, skip))
        ctx.scope("shared texts")
    elif shard[0] == "books":
        A = [("One", [("s", ("W",), None), ("i", ("x",), None)]),
             ("Two & <3>\"'", [("i", ("x",), None), ("s", ("Two & <3>\"'",),
                                                   U1)]),
             ("\u03b1", [("i", ("W",), U2), ("i", ("x",), None)])]
        for n in (1, 2, 3):
            for sheets in itertools.permutations(A, n):
                for numbers in itertools.permutations((1, 2, 10), n):
                    for order in itertools.permutations(range(n)):
                        for mode in ("same", "words"):
                            ctx.distinct()
                            ctx.case(trace, ctx, list(sheets), mode,
                                     numbers=numbers, order=order,
                                     absolute=order[0] == 0,
                                     replay=(sheets, numbers, order, mode))
        for bom in [("types",), ("book",), ("sheets",), ("rels",),
                    ("shared",), ("types", "book", "sheets", "rels",
                                  "shared")]:
            ctx.distinct()
            ctx.case(trace, ctx, A, "words", bom=bom, replay=bom)
        B = [("One", [("i", ("W",), U1), ("ir", ("W", "W "), None),
                      ("n", "1", None)])]
        for mode in sorted(MODES):
            ctx.distinct()
            ctx.case(trace, ctx, B, mode, with_shared=False,
                     replay=("no shared texts", mode))
        ctx.scope("workbooks")
    else:
        for rtl in (None, False, True):
            for view in (None, "", ' rightToLeft="1"',
                         ' rightToLeft="false" tabSelected="1"'):
                ctx.distinct()
                ctx.case(trace_rtl, ctx, rtl, view, replay=(rtl, view))
        ctx.scope("orientation")
