"""C30 - DOCX: paragraphs, their runs and links."""
from __future__ import unicode_literals

import itertools
from xml.etree import ElementTree

from vp import ooxml
from vp.core import Violation, expect
from vp.docs import translated
from vp.ooxml import atoms, markup, members, parts_of, q, read, tree, W

U1, U2 = "http://a.b/?x=1&y=2", "http://a.b/"
POOL = [
    ("t", "W", None), ("t", "W", "b"), ("t", "W ", "i"), ("t", " W", "b"),
    ("t", " ", None), ("t", " ", "b"), ("t", "", None), ("t", "\u00a0", None),
    ("t", "W <&> \"W' \u03b1\U0001F600", "i"),
    ("t", "W", None, U1), ("t", "W ", "b", U2), ("t", " ", None, U1),
    ("s", "W", "b", U1),
    ("h", U1, (("W", None), ("W", "b"))),
    ("h", U2, (("W ", "b"), (" ", None), ("W", "i"))),
    ("a", "W", "b"),
    ("tt", "W", "W", "i"),
    ("br",),
]
CORE = [POOL[i] for i in (0, 1, 3, 4, 5, 9, 10, 13)]
LEN = {"quick": 3, "thorough": 4}
BATCH = 60


def H():
    from openformats.formats.docx import DocxHandler
    return DocxHandler()


def bounds(tier):
    return {"elements": len(POOL), "paragraphs": "every sequence of up to %d "
            "elements, of %d core elements" % (LEN[tier], LEN[tier] + 1),
            "translations": sorted(MODES), "paragraph properties": 3,
            "places": ["body", "table", "content control"]}


# -- translations: parts [(text, url)] from the parts of the string

def same(parts, n):
    return [(t, u) for t, u, _ in parts]


def words(parts, n):
    return [("T%dx%d" % (i, n), u) for i, (t, u, _) in enumerate(parts)]


def spaces(parts, n):
    return [(" T%dx%d " % (i, n), u) for i, (t, u, _) in enumerate(parts)]


def special(parts, n):
    return [("<T%d & &amp; \"x\" 'y' \u05d0\U0001F600 </x> %%s \\1>" % i, u)
            for i, (t, u, _) in enumerate(parts)]


def fewer(parts, n):
    return words(parts, n)[:-1]


def single(parts, n):
    return [("T x%d" % n, None)]


def more(parts, n):
    return words(parts, n) + [(" M1", None), (" M2 ", None)]


def unlinked(parts, n):
    return [(t, None) for t, u in words(parts, n)]


def relinked(parts, n):
    return [(t, u and "%s/%d?a&b" % (u, n)) for t, u in words(parts, n)]


def rotated(parts, n):
    w = words(parts, n)
    urls = [u for t, u in w]
    return [(t, u) for (t, _), u in zip(w, urls[1:] + urls[:1])]


def linked(parts, n):
    return [(t, u or "http://new/%d" % i)
            for i, (t, u) in enumerate(words(parts, n))]


def empty(parts, n):
    return []


MODES = {f.__name__: f for f in (
    same, words, spaces, special, fewer, single, more, unlinked, relinked,
    rotated, linked, empty)}


def chars(items):
    return [(c, a["url"]) for a in items for c in a["text"]
            if not c.isspace()]


def text_of(items):
    return "".join(a["text"] for a in items)


def subtrees(xml, ns):
    """Paragraphs of a part as nested tuples."""
    def conv(e):
        return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items()
                                    if k != "txid")),
                (e.text or ""), tuple(conv(c) for c in e))
    return [conv(p) for p in ElementTree.fromstring(xml).iter(q(ns, "p"))]


def compiled(items, tparts, v2=False):
    """Expected text and (char, url) of the paragraph."""
    el = [i for i, a in enumerate(items)
          if not a["field"] and (v2 or a["text"].strip())]
    tail = "" if v2 else "".join(
        a["text"] for a in items[el[-1] + 1:] if not a["field"])
    text, out = "", []
    for k, (t, u) in enumerate(tparts):
        if k >= len(el):
            u = tparts[len(el) - 1][1]
        text += t
        out += [(c, u) for c in t if not c.isspace()]
    return text + tail, out


def formats(items, tparts, v2=False):
    """Expected (text, fmt) of the text elements.

    Links that move take their formats along, if there are as many texts that
    become links as there are links that disappear."""
    el = [i for i, a in enumerate(items)
          if not a["field"] and (v2 or a["text"].strip())]
    fmt = [items[i]["fmt"] for i in el]
    added, gone = {}, {}
    for k, (t, u) in enumerate(tparts[:len(el)]):
        url = items[el[k]]["url"]
        if u and not url:
            added.setdefault(u, []).append(k)
        elif url and not u:
            gone.setdefault(url, []).append(k)
    if len(added) == len(gone):
        old = list(fmt)
        for a, g in zip(added.values(), gone.values()):
            for x, y in ((a, g), (g, a)):
                for i, k in enumerate(x):
                    fmt[k] = old[y[min(i, len(y) - 1)]]
    out = []
    for k, (t, u) in enumerate(tparts):
        if k < len(el):
            out.append([t, fmt[k]])
        else:
            out[-1][0] += t
    return [(t.strip(), f) for t, f in out if t.strip()]


def applicable(items, parts, tparts):
    """Links of several runs are kept, changed or removed as a whole; links
    inside of the document don't get another target."""
    el = [i for i, a in enumerate(items)
          if not a["field"] and a["text"].strip()]
    group = {}
    for k, (t, u) in enumerate(tparts[:len(el)]):
        a = items[el[k]]
        if a["inside"] and u:
            return False
        if a["url"]:
            if group.setdefault(a["group"], u) != u:
                return False
    return True


def names(data):
    return [n for n, _ in members(data)]


def trace(ctx, specs, ppr, modes=None):
    src = ooxml.docx(specs, ppr)
    smem = dict(members(src))
    items = [atoms(s, n) for n, s in enumerate(specs)]
    ref = [parts_of(i) for i in items]
    ctx.step(2)
    tmpl, got = H().parse(src)
    expect([(g.string, g.order) for g in got],
           [(s, n) for n, s in enumerate(
               s for s, _ in ref if s is not None)], "strings", specs=specs)
    expect([g.key for g in got], [g.string for g in got], "keys")
    tmem = dict(members(tmpl))
    expect(names(tmpl), names(src), "files of the template")
    doc, rel = "word/document.xml", "word/_rels/document.xml.rels"
    for name in smem:
        if name != doc:
            expect(tmem[name], smem[name], "file %s of the template" % name)
    expect(tree(tmem[doc]), tree(smem[doc]), "document of the template",
           specs=specs)
    source = subtrees(smem[doc], W)
    where = {}
    for n, (s, _) in enumerate(ref):
        if s is not None:
            where[n] = len(where)
    for mode in modes or sorted(MODES):
        trans, want = [], {}
        for n, g in sorted(where.items()):
            parts = ref[n][1]
            t = MODES[mode](parts, n)
            if not applicable(items[n], parts, t):
                continue
            want[n] = t
            trans.append(translated(got, g, got[g].string if mode == "same"
                                    else markup(t)))
        ctx.step()
        out = H().compile(tmpl, trans)
        ctx.outcome(out)
        omem = dict(members(out))
        expect(names(out), names(src), "files of the compiled file")
        for name in smem:
            if name not in (doc, rel):
                expect(omem[name], smem[name], "compiled file " + name)
        ps = read("docx", omem[doc], omem[rel])
        expect(len(ps), len(specs), "number of paragraphs", mode=mode)
        result = subtrees(omem[doc], W)
        for n in range(len(specs)):
            det = dict(mode=mode, spec=specs[n], string=ref[n][0],
                       translation=trans and markup(want.get(n, [])),
                       result=[(a["text"], a["fmt"], a["url"])
                               for a in ps[n]])
            if n not in want:
                expect(result[n], source[n], "paragraph that is not "
                       "translated", **det)
                continue
            if mode == "same":
                expect(text_of(ps[n]).replace("\u00a0", " "),
                       text_of(items[n]).replace("\u00a0", " "),
                       "text of the paragraph", **det)
                expect(chars(ps[n]), chars(items[n]), "links", **det)
                if all(len(p[2]) == 1 for p in ref[n][1]):
                    expect(result[n], source[n], "paragraph", **det)
                continue
            text, urls = compiled(items[n], want[n])
            expect(text_of(ps[n]).replace("\u00a0", " "), text.replace(
                "\u00a0", " "), "text of the paragraph", **det)
            expect(chars(ps[n]), urls, "links", **det)
            expect([(a["text"].strip(), a["fmt"]) for a in ps[n]
                    if a["text"].strip()],
                   formats(items[n], want[n]), "formats", **det)
        if mode == "same":
            once = [n for n in sorted(where)
                    if all(len(p[2]) == 1 for p in ref[n][1])]
            if len(once) == len(where):
                expect([g.string for g in H().parse(out)[1]],
                       [ref[n][0] for n in once],
                       "strings of the compiled file", specs=specs)


# -- right to left

def trace_rtl(ctx, specs, ppr, skip):
    """Only translated paragraphs are turned, together with all tables."""
    src = ooxml.docx(specs, ppr)
    doc, rel = "word/document.xml", "word/_rels/document.xml.rels"
    tmpl, got = H().parse(src)
    trans = [translated(got, i, g.string) for i, g in enumerate(got)
             if i % 2 != skip]
    ctx.step(3)
    plain = dict(members(H().compile(tmpl, trans)))
    out = dict(members(H().compile(tmpl, trans, is_rtl=True)))
    expect(read("docx", out[doc], out[rel]),
           read("docx", plain[doc], plain[rel]), "texts", specs=specs)
    for name in out:
        if name not in (doc, rel):
            expect(out[name], plain[name], name)
    turned = set(t.key for t in trans)
    ns = "{%s}" % W

    def val(e):
        return e.get(ns + "val")
    for n, (p, before) in enumerate(zip(
            ElementTree.fromstring(out[doc]).iter(q(W, "p")),
            ElementTree.fromstring(plain[doc]).iter(q(W, "p")))):
        ref = parts_of(atoms(specs[n], n))[0]
        det = dict(spec=specs[n], ppr=ppr)
        if ref not in turned:
            expect(ElementTree.tostring(p), ElementTree.tostring(before),
                   "paragraph that is not translated", **det)
            continue
        expect(p[0].tag, ns + "pPr", "first element of the paragraph", **det)
        expect([[val(b) for b in e.findall(ns + "bidi")]
                for e in p.iter(ns + "pPr")], [["1"]], "bidi", **det)
        expect(len(list(p.iter(ns + "bidi"))), 1, "bidi elements", **det)
        for e in p.iter(ns + "rPr"):
            expect([val(b) for b in e.findall(ns + "rtl")], ["1"], "rtl",
                   **det)
        # nothing else changes
        for e in list(p.iter(ns + "pPr")) + list(p.iter(ns + "rPr")):
            for b in e.findall(ns + "bidi") + e.findall(ns + "rtl"):
                e.remove(b)
        for e in (list(before.iter(ns + "pPr")) +
                  list(before.iter(ns + "rPr"))):
            for b in e.findall(ns + "bidi") + e.findall(ns + "rtl"):
                e.remove(b)
        if before.find(ns + "pPr") is None:
            p.remove(p[0])
        p.attrib.pop("txid", None)
        before.attrib.pop("txid", None)
        expect(ElementTree.tostring(p), ElementTree.tostring(before),
               "rest of the paragraph", **det)
    for t in ElementTree.fromstring(out[doc]).iter(ns + "tbl"):
        expect(t[0].tag, ns + "tblPr", "first element of a table")
        expect(len(list(t.iter(ns + "bidiVisual"))), 1, "bidiVisual")
    ctx.outcome(out[doc])


# -- files

LAYOUTS = [{}, {"target": "/word/document.xml"}, {"main": "main.xml"},
           {"main": "a/b/c d.xml"}, {"bom": ("doc",)}, {"bom": ("base",)},
           {"bom": ("rels",)}, {"bom": ("doc", "base", "rels")},
           {"extra": (("customXml/", b""), ("customXml/\u03b1 b.bin", b"\r\n"
                                           b"\x00"), ("in.docx.x", b"")),
            }]


def trace_file(ctx, layout, specs):
    """Where parts are and how they start does not matter."""
    main = layout.get("main", "word/document.xml")
    folder, name = ("/" + main).rsplit("/", 1)
    rel = (folder + "/_rels/" + name + ".rels")[1:]
    src = ooxml.docx(specs, 1, **layout)
    ctx.step(2)
    h = H()
    tmpl, got = h.parse(src)
    want = [parts_of(atoms(s, n))[0] for n, s in enumerate(specs)]
    expect([g.string for g in got], [w for w in want if w], "strings")
    out = h.compile(tmpl, [translated(got, i, "T%d" % i)
                           for i in range(len(got))])
    expect(names(out), names(src), "files")
    smem, omem = dict(members(src)), dict(members(out))
    for n in smem:
        if n not in (main, rel):
            expect(omem[n], smem[n], n)
    got2 = read("docx", omem[main], omem[rel])
    expect([text_of(p) for p in got2 if text_of(p).strip()],
           ["T%d" % i for i in range(len(got))], "texts")
    expect([g.string for g in h.parse(out)[1]],
           ["T%d" % i for i in range(len(got))], "strings of the file")
    # the template is none the worse for it
    expect(members(h.compile(tmpl, [translated(got, i, "T%d" % i)
                                    for i in range(len(got))])),
           members(out), "compiling once more")


# -- paragraphs with the same text

def trace_same(ctx, specs):
    """They are one string for the user and get the same translation."""
    src = ooxml.docx(specs, 0)
    doc, rel = "word/document.xml", "word/_rels/document.xml.rels"
    ctx.step(2)
    tmpl, got = H().parse(src)
    refs = [parts_of(atoms(s, n))[0] for n, s in enumerate(specs)]
    expect([g.string for g in got], refs, "strings")
    value = {r: "T%d" % i for i, r in enumerate(sorted(set(refs)))}
    trans = [translated(got, i, value[g.string]) for i, g in enumerate(got)]
    out = dict(members(H().compile(tmpl, trans)))
    expect([text_of(p) for p in read("docx", out[doc], out[rel])],
           [value[r] for r in refs], "texts", specs=specs)


def batch(ctx, specs, ppr, modes=None):
    """All paragraphs in one file; one by one to locate what fails."""
    try:
        trace(ctx, specs, ppr, modes)
    except Exception:
        if len(specs) == 1:
            raise
        found = ctx.nviol
        for s in specs:
            ctx.case(trace, ctx, [s], ppr, modes, replay=([s], ppr, modes))
        if ctx.nviol == found:
            raise


def sequences(tier):
    n = LEN[tier]
    for k in range(1, n + 1):
        for s in itertools.product(POOL, repeat=k):
            yield s
    for s in itertools.product(CORE, repeat=n + 1):
        yield s


def shards(tier):
    ooxml.scratch()
    total = 64 if tier == "quick" else 1024
    return [("rtl",), ("file",), ("same",)] + [
        (i, total) for i in range(total)]


def explore(ctx, shard):
    if shard[0] == "rtl":
        pool = [(e,) for e in POOL] + list(itertools.product(CORE, repeat=2))
        for ppr in (0, 1, 2):
            for skip in (0, 1, 2):
                for shift in range(4):
                    ctx.distinct()
                    specs = pool[shift:] + pool[:shift]
                    ctx.case(trace_rtl, ctx, specs, ppr, skip,
                             replay=(ppr, skip, shift))
        ctx.scope("right to left")
        return
    if shard[0] == "file":
        specs = [(e,) for e in POOL]
        for layout in LAYOUTS:
            ctx.distinct()
            ctx.case(trace_file, ctx, layout, specs, replay=layout)
        ctx.case(trace_probe, ctx, signature="C30:several spaces",
                 replay="several spaces")
        ctx.scope("files")
        return
    if shard[0] == "same":
        texts = [(("t", "A", None),), (("t", "A", "b"),),
                 (("t", "A", None, U1),), (("t", "B", "i"),),
                 (("t", "A", None), ("br",))]
        for specs in itertools.product(texts, repeat=4):
            ctx.distinct()
            ctx.case(trace_same, ctx, specs, replay=specs)
        ctx.scope("same texts")
        return
    i, total = shard
    specs = []
    k = 0
    for n, s in enumerate(sequences(ctx.tier)):
        if (n // BATCH) % total == i:
            specs.append(s)
            ctx.distinct()
            if len(specs) == BATCH:
                ctx.case(batch, ctx, specs, k % 3, replay=(specs[:1], k))
                specs, k = [], k + 1
    if specs:
        ctx.case(batch, ctx, specs, k % 3, replay=(specs[:1], k))
    ctx.scope("paragraphs")
    ctx.sample([i, total])


def trace_probe(ctx):
    """Spaces between runs, in an element of their own."""
    spec = (("t", "W", None), ("t", "   ", None), ("t", "W", "b"))
    tmpl = H().parse(ooxml.docx([spec], 0))[0]
    mem = dict(members(tmpl))
    expect([a["text"] for a in read(
        "docx", mem["word/document.xml"],
        mem["word/_rels/document.xml.rels"])[0]],
        [a["text"] for a in atoms(spec, 0)], "text of the template")
