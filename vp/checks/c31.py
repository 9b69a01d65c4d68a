"""C31 - PPTX: slides, notes, paragraphs, runs and links."""
from __future__ import unicode_literals

import itertools
from xml.etree import ElementTree

from vp import ooxml
from vp.checks.c30 import (MODES, U1, U2, applicable, chars, compiled,
                           formats, subtrees, text_of)
from vp.core import expect
from vp.docs import translated
from vp.ooxml import A, atoms, markup, members, parts_of, q, read, tree

POOL = [
    ("t", "W", None), ("t", "W", "b"), ("t", "W ", "i"), ("t", " W", "b"),
    ("t", " ", None), ("t", " ", "b"), ("t", "", None), ("t", "\u00a0", None),
    ("t", "W <&> \"W' \u03b1\U0001F600", "i"),
    ("t", "W", None, U1), ("t", "W ", "b", U2), ("t", " ", None, U1),
    ("s", "W", "b", U1),
    ("h", U1, (("W", None), ("W", "b"))),
    ("h", U2, (("W ", "b"), (" ", None), ("W", "i"))),
    ("a", "W", "b"), ("f", "W"), ("br",),
]
CORE = [POOL[i] for i in (0, 1, 3, 4, 5, 9, 10, 13)]
LEN = {"quick": 3, "thorough": 4}
BATCH = 60
VERSIONS = (1, 2)


def H(version=1):
    from openformats.formats import pptx
    return {1: pptx.PptxHandler, 2: pptx.PptxHandlerV2}[version]()


def bounds(tier):
    return {"elements": len(POOL), "paragraphs": "every sequence of up to %d "
            "elements, of %d core elements" % (LEN[tier], LEN[tier] + 1),
            "translations": sorted(MODES), "versions": VERSIONS,
            "presentations": "every order and numbering of 3 slides with "
            "and without notes", "places": ["shape", "group", "table"]}


def names(data):
    return [n for n, _ in members(data)]


def elements(items, v2):
    """Text elements that take parts of a translation."""
    return [a for a in items if not a["field"] and a["text"] and
            (v2 or a["text"].strip())]


def kept(items, v2):
    return [a for a in items if not a["field"] and (a["text"] or not v2)]


SLIDE, REL = "ppt/slides/slide1.xml", "ppt/slides/_rels/slide1.xml.rels"


def trace(ctx, specs, ppr, version, modes=None):
    v2 = version == 2
    src = ooxml.pptx([(1, specs, None, None)], ppr)
    smem = dict(members(src))
    items = [atoms(s, n) for n, s in enumerate(specs)]
    ref = [parts_of(i, v2) for i in items]
    ctx.step(2)
    tmpl, got = H(version).parse(src)
    expect([(g.string, g.order) for g in got],
           [(s, n) for n, s in enumerate(
               s for s, _ in ref if s is not None)], "strings", specs=specs)
    expect([(g.key, g.tags) for g in got], [(g.string, None) for g in got],
           "keys and tags")
    tmem = dict(members(tmpl))
    expect(names(tmpl), names(src), "files of the template")
    for name in smem:
        if name != SLIDE:
            expect(tmem[name], smem[name], "file %s of the template" % name)
    expect(tree(tmem[SLIDE]), tree(smem[SLIDE]), "slide of the template",
           specs=specs)
    source = subtrees(smem[SLIDE], A)
    where = {}
    for n, (s, _) in enumerate(ref):
        if s is not None:
            where[n] = len(where)
    for mode in modes or sorted(MODES):
        trans, want = [], {}
        for n, g in sorted(where.items()):
            parts = ref[n][1]
            t = MODES[mode](parts, n)
            if not allowed(items[n], parts, t, mode, v2):
                continue
            want[n] = t
            trans.append(translated(got, g, got[g].string if mode == "same"
                                    else markup(t)))
        ctx.step()
        out = H(version).compile(tmpl, trans)
        ctx.outcome(out)
        omem = dict(members(out))
        expect(names(out), names(src), "files of the compiled file")
        for name in smem:
            if name not in (SLIDE, REL):
                expect(omem[name], smem[name], "compiled file " + name)
        ps = read("pptx", omem[SLIDE], omem[REL])
        expect(len(ps), len(specs), "number of paragraphs", mode=mode)
        result = subtrees(omem[SLIDE], A)
        for n in range(len(specs)):
            det = dict(mode=mode, spec=specs[n], string=ref[n][0],
                       translation=trans and markup(want.get(n, [])),
                       result=[(a["text"], a["fmt"], a["url"])
                               for a in ps[n]])
            if n not in want:
                expect(result[n], source[n], "paragraph that is not "
                       "translated", **det)
                continue
            # fields are left alone
            expect([a["text"] for a in ps[n] if a["field"]],
                   [a["text"] for a in items[n] if a["field"]], "fields",
                   **det)
            final = [a for a in ps[n] if not a["field"]]
            first = kept(items[n], v2)
            if mode == "same":
                expect(text_of(final).replace("\u00a0", " "),
                       text_of(first).replace("\u00a0", " "),
                       "text of the paragraph", **det)
                expect(chars(final), chars(first), "links", **det)
                if all(len(p[2]) == 1 for p in ref[n][1]):
                    expect(result[n], source[n], "paragraph", **det)
                continue
            text, urls = compiled(first, want[n], v2)
            lead = blanks_of_fields(items[n], v2)
            expect(text_of(final).replace("\u00a0", " ").replace(" ", "")
                   if lead else text_of(final).replace("\u00a0", " "),
                   text.replace("\u00a0", " ").replace(" ", "") if lead else
                   text.replace("\u00a0", " "), "text of the paragraph",
                   **det)
            expect(chars(final), urls, "links", **det)
            expect([(a["text"].strip(), a["fmt"]) for a in final
                    if a["text"].strip()],
                   formats(first, want[n], v2), "formats", **det)
        if mode == "same":
            once = [n for n in sorted(where)
                    if all(len(p[2]) == 1 for p in ref[n][1])]
            if len(once) == len(where):
                expect([g.string for g in H(version).parse(out)[1]],
                       [ref[n][0] for n in once],
                       "strings of the compiled file", specs=specs)


def blanks_of_fields(items, v2):
    """Whether blank elements precede a field: they stay in the slide."""
    if v2:
        return False
    return any(a["field"] and i and not items[i - 1]["text"].strip()
               for i, a in enumerate(items))


def allowed(items, parts, t, mode, v2):
    el = elements(items, v2)
    for k, (_, u) in enumerate(t[:len(el)]):
        if el[k]["inside"] and u:
            return False
    # the XML reader reduces white space between tags to a single space
    return not any(len(x) > 1 and not x.strip() for x, _ in t)


def batch(ctx, specs, ppr, version, modes=None):
    try:
        trace(ctx, specs, ppr, version, modes)
    except Exception:
        if len(specs) == 1:
            raise
        found = ctx.nviol
        for s in specs:
            ctx.case(trace, ctx, [s], ppr, version, modes,
                     replay=([s], ppr, version, modes))
        if ctx.nviol == found:
            raise


# -- presentations

LAYOUTS = [{"bom": b} for b in (
    ("slides",), ("rels",), ("types",), ("slides", "rels", "types"))] + [
        {"extra": (("customXml/", b""), ("customXml/\u03b1 b.bin",
                                         b"\r\n\x00"))},
        {"late": True}]
LINKS = ("http://a/notesSlide7.xml", "../notesSlides/notesSlide9.xml",
         "http://a/relationships/notesSlide", "slide8.xml")


def turn(s):
    return s.replace(">X<", ">TX<") if ">X<" in s else "T" + s


def trace_deck(ctx, version, numbers, notes, listing, layout={}):
    """Slides in the order of their numbers, each followed by its note."""
    slides = [(num, [(("t", "S%d" % num, None),), (("t", "X", None, LINKS[num % 4])
                                              if layout.get("late") else
                                              ("t", "X", None),)],
               note, [(("t", "N%d" % note, None),)] if note else None)
              for num, note in zip(numbers, notes)]
    src = ooxml.pptx(slides, 0, listing, **layout)
    ctx.step(2)
    h = H(version)
    tmpl, got = h.parse(src)
    want = []
    for num, note in sorted(zip(numbers, notes)):
        x = "X"
        if layout.get("late"):
            x = '<tx href="%s">X</tx>' % LINKS[num % 4]
        want += [("S%d" % num, None), (x, None)]
        if note:
            want.append(("N%d" % note, ["notes"]))
    expect([(g.string, g.tags) for g in got], want, "strings",
           numbers=numbers, notes=notes)
    expect([g.order for g in got], list(range(len(want))), "order")
    expect(names(tmpl), names(src), "files of the template")
    out = H(version).compile(tmpl, [
        translated(got, i, turn(g.string)) for i, g in enumerate(got)])
    expect([(g.string, g.tags) for g in h.parse(out)[1]],
           [(turn(s), t) for s, t in want], "strings of the compiled file")
    smem, omem = dict(members(src)), dict(members(out))
    for name in smem:
        if "/slides/" not in name and "/notesSlides/" not in name:
            expect(omem[name], smem[name], name)
    for num, note in zip(numbers, notes):
        for kind, k, t in (("slide", num, ["TS%d" % num, "TX"]),
                           ("notesSlide", note, ["TN%s" % note])):
            if not k:
                continue
            xml = omem["ppt/%ss/%s%d.xml" % (kind, kind, k)]
            rel = omem["ppt/%ss/_rels/%s%d.xml.rels" % (kind, kind, k)]
            expect([text_of(p) for p in read("pptx", xml, rel)], t,
                   "texts of %s %d" % (kind, k))
    ctx.outcome(out)


def trace_rtl(ctx, version, specs, ppr, skip):
    src = ooxml.pptx([(1, specs, None, None)], ppr)
    tmpl, got = H(version).parse(src)
    trans = [translated(got, i, g.string) for i, g in enumerate(got)
             if i % 2 != skip]
    ctx.step(3)
    plain = dict(members(H(version).compile(tmpl, trans)))
    out = dict(members(H(version).compile(tmpl, trans, is_rtl=True)))
    turned = set(t.key for t in trans)
    for name in out:
        if name not in (SLIDE, REL):
            expect(out[name], plain[name], name)
    for n, (p, before) in enumerate(zip(
            ElementTree.fromstring(out[SLIDE]).iter(q(A, "p")),
            ElementTree.fromstring(plain[SLIDE]).iter(q(A, "p")))):
        if parts_of(atoms(specs[n], n), version == 2)[0] in turned:
            for e in before.iter(q(A, "pPr")):
                e.set("rtl", "1")
                if e.get("algn") == "l":
                    e.set("algn", "r")
        expect(canon(p), canon(before), "paragraph", spec=specs[n], ppr=ppr)
    ctx.outcome(out[SLIDE])


def canon(e):
    return (e.tag, sorted(e.attrib.items()), e.text or "",
            [canon(c) for c in e], e.tail or "")


def sequences(tier):
    n = LEN[tier]
    for k in range(1, n + 1):
        for s in itertools.product(POOL, repeat=k):
            yield s
    for s in itertools.product(CORE, repeat=n + 1):
        yield s


def shards(tier):
    ooxml.scratch()
    total = 64 if tier == "quick" else 1024
    return [("deck", v) for v in VERSIONS] + [
        ("rtl", v) for v in VERSIONS] + [
            (v, i, total) for i in range(total) for v in VERSIONS]


def explore(ctx, shard):
    if shard[0] == "deck":
        for n in (1, 2, 3):
            for numbers in itertools.permutations((1, 2, 10, 101), n):
                for notes in itertools.product((0, 1), repeat=n):
                    for perm in itertools.permutations((1, 3, 12), n):
                        if sum(notes) < 2 and perm != (1, 3, 12)[:n]:
                            continue
                        note = [p if k else None
                                for k, p in zip(notes, perm)]
                        total = n + sum(notes)
                        for listing in (None, list(range(total))[::-1]):
                            ctx.distinct()
                            ctx.case(trace_deck, ctx, shard[1], numbers,
                                     note, listing,
                                     replay=(shard, numbers, note, listing))
        for layout in LAYOUTS:
            for note in ((1, 2), (None, None)):
                ctx.distinct()
                ctx.case(trace_deck, ctx, shard[1], (1, 2), note, None,
                         layout, replay=(shard, note, layout))
        ctx.scope("presentations")
        return
    if shard[0] == "rtl":
        pool = [(e,) for e in POOL] + list(itertools.product(CORE, repeat=2))
        for ppr in (0, 1, 2):
            for skip in (0, 1, 2):
                for shift in range(3):
                    ctx.distinct()
                    ctx.case(trace_rtl, ctx, shard[1],
                             pool[shift:] + pool[:shift], ppr, skip,
                             replay=(shard, ppr, skip, shift))
        ctx.scope("right to left")
        return
    version, i, total = shard
    specs = []
    k = 0
    for n, s in enumerate(sequences(ctx.tier)):
        if (n // BATCH) % total == i:
            specs.append(s)
            ctx.distinct()
            if len(specs) == BATCH:
                ctx.case(batch, ctx, specs, k % 3, version,
                         replay=(specs[:1], k))
                specs, k = [], k + 1
    if specs:
        ctx.case(batch, ctx, specs, k % 3, version, replay=(specs[:1], k))
    ctx.scope("paragraphs")
    ctx.sample([version, i, total])
