"""Office Open XML paragraphs: generator, reader and reference.

A paragraph is a sequence of elements

  ("t", text, fmt, url)        a run, with a link of its own if url is given
  ("s", text, fmt, url)        a run whose link shares the relationship of url
  ("h", url, ((text, fmt),..)) several runs inside of one link
  ("a", text, fmt)             a link inside of the document
  ("tt", text, text, fmt)      one run with two text elements (DOCX)
  ("f", text)                  an automatic field (PPTX), not translatable
  ("br",)                      a run without text

where a W in a text stands for a word that is unique in the document.  Many
paragraphs are placed in one file, which the handlers treat one by one.
"""
from __future__ import unicode_literals

import atexit
import io
import os
import shutil
import tempfile
import zipfile
from xml.etree import ElementTree
from xml.sax.saxutils import escape, quoteattr

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
R = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
A = "http://schemas.openxmlformats.org/drawingml/2006/main"
P = "http://schemas.openxmlformats.org/presentationml/2006/main"
PK = "http://schemas.openxmlformats.org/package/2006/relationships"
CT = "http://schemas.openxmlformats.org/package/2006/content-types"
HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'


def scratch():
    """The handlers unpack files in a folder that goes away with the check.

    Called by the parent process; workers leave by os._exit."""
    d = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    tempfile.tempdir = tempfile.mkdtemp(prefix="vp-ooxml-", dir=d)
    atexit.register(shutil.rmtree, tempfile.tempdir, True)


class Rels(object):
    def __init__(self, base):
        self.items = list(base)
        self.shared = {}

    def add(self, target, external=True):
        rid = "rId%d" % (len(self.items) + 1)
        self.items.append(
            '<Relationship Id="%s" Type="%s/hyperlink" Target=%s%s/>' % (
                rid, R, quoteattr(target),
                ' TargetMode="External"' if external else ""))
        return rid

    def share(self, target):
        if target not in self.shared:
            self.shared[target] = self.add(target)
        return self.shared[target]

    def xml(self):
        return HEAD + '<Relationships xmlns="%s">%s</Relationships>' % (
            PK, "".join(self.items))


def archive(members):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for name, content in members:
            z.writestr(name, content.encode("utf-8") if
                       isinstance(content, type("")) else content)
    return out.getvalue()


def members(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


class Words(object):
    """Replaces the W of texts by unique words."""

    def __init__(self, n):
        self.n = n
        self.i = 0

    def __call__(self, text):
        while "W" in text:
            text = text.replace("W", "p%dw%d" % (self.n, self.i), 1)
            self.i += 1
        return text


def atoms(spec, n):
    """Text elements of a paragraph in order: dicts with text, fmt, url,
    group (runs inside of one link share it) and field."""
    word = Words(n)
    out = []
    for g, e in enumerate(spec):
        def add(text, fmt, url=None, **kw):
            out.append(dict(text=word(text), fmt=fmt, url=url, group=g,
                            field=False, shared=False, inside=e[0] in ("a", "tt"), **kw))
        if e[0] in ("t", "s"):
            add(e[1], e[2], e[3] if len(e) > 3 else None)
            out[-1]["shared"] = e[0] == "s"
        elif e[0] == "h":
            for text, fmt in e[2]:
                add(text, fmt, e[1])
        elif e[0] == "a":
            add(e[1], e[2])
        elif e[0] == "tt":
            add(e[1], e[3])
            add(e[2], e[3])
        elif e[0] == "f":
            add(e[1], None)
            out[-1]["field"] = True
    return out


def docx_paragraph(spec, n, rels, ppr):
    word = Words(n)

    def t(text):
        text = word(text)
        if not text:
            return "<w:t/>"
        return '<w:t xml:space="preserve">%s</w:t>' % escape(text)

    def run(inner, fmt):
        return "<w:r>%s%s</w:r>" % (
            "<w:rPr><w:%s/></w:rPr>" % fmt if fmt else "", inner)
    out = ""
    for e in spec:
        if e[0] in ("t", "s"):
            r = run(t(e[1]), e[2])
            url = e[3] if len(e) > 3 else None
            if url:
                rid = rels.share(url) if e[0] == "s" else rels.add(url)
                r = '<w:hyperlink r:id="%s">%s</w:hyperlink>' % (rid, r)
            out += r
        elif e[0] == "h":
            out += '<w:hyperlink r:id="%s">%s</w:hyperlink>' % (
                rels.add(e[1]), "".join(run(t(x), f) for x, f in e[2]))
        elif e[0] == "a":
            out += '<w:hyperlink w:anchor="x">%s</w:hyperlink>' % run(
                t(e[1]), e[2])
        elif e[0] == "tt":
            out += run(t(e[1]) + "<w:br/>" + t(e[2]), e[3])
        elif e[0] == "br":
            out += "<w:r><w:br/></w:r>"
    return "<w:p>%s%s</w:p>" % (
        {0: "", 1: '<w:pPr><w:jc w:val="left"/></w:pPr>',
         2: '<w:pPr><w:bidi w:val="0"/><w:rPr><w:rtl w:val="0"/>'
            '<w:b/></w:rPr></w:pPr>'}[ppr], out)


def docx(specs, ppr=1, main="word/document.xml", target=None, bom=(),
         extra=()):
    rels = Rels(['<Relationship Id="rId1" Type="%s/styles" '
                 'Target="styles.xml"/>' % R,
                 '<Relationship Id="R" Type="%s/x" Target="x.xml"/>' % R])
    folder, name = ("/" + main).rsplit("/", 1)
    rels_path = (folder + "/_rels/" + name + ".rels")[1:]

    def mark(part, text):
        return ("\ufeff" if part in bom else "") + text
    body = ""
    for n, spec in enumerate(specs):
        p = docx_paragraph(spec, n, rels, ppr)
        where = n % 4
        if where == 1:
            p = ("<w:tbl>%s<w:tr><w:tc><w:tcPr/>%s</w:tc></w:tr></w:tbl>" % (
                "" if n % 8 == 1 else "<w:tblPr><w:tblW/></w:tblPr>", p))
        elif where == 3:
            p = "<w:sdt><w:sdtContent>%s</w:sdtContent></w:sdt>" % p
        body += p
    return archive([
        ("[Content_Types].xml", HEAD + '<Types xmlns="%s"/>' % CT),
        ("_rels/.rels", mark("base", HEAD + '<Relationships xmlns="%s">'
         '<Relationship Id="rId7" Type="%s/metadata/x" '
         'Target="docProps/core.xml"/>'
         '<Relationship Id="rId1" Type="%s/officeDocument" '
         'Target="%s"/></Relationships>' % (PK, R, R, target or main))),
        (main, mark("doc", HEAD + '<w:document xmlns:w="%s" xmlns:r="%s">'
         "<w:body>%s<w:sectPr/></w:body></w:document>" % (W, R, body))),
        (rels_path, mark("rels", rels.xml())),
        ("word/styles.xml", HEAD + "<w:styles xmlns:w='%s'><w:t>no</w:t>"
         "</w:styles>" % W),
        ("word/media/i.png", b"\x89PNG\r\n\x1a\n\x00\xff"),
    ] + list(extra))


def pptx_paragraph(spec, n, rels, ppr):
    word = Words(n)

    def t(text):
        text = word(text)
        return "<a:t>%s</a:t>" % escape(text) if text else "<a:t/>"

    def run(text, fmt, rid=None):
        link = '<a:hlinkClick r:id="%s"/>' % rid if rid else ""
        rpr = ""
        if fmt:
            rpr = '<a:rPr %s="1">%s</a:rPr>' % (fmt, link)
        elif link:
            rpr = "<a:rPr>%s</a:rPr>" % link
        return "<a:r>%s%s</a:r>" % (rpr, t(text))
    out = ""
    for e in spec:
        if e[0] in ("t", "s"):
            url = e[3] if len(e) > 3 else None
            out += run(e[1], e[2], (rels.share(url) if e[0] == "s" else
                                    rels.add(url)) if url else None)
        elif e[0] == "h":
            rid = rels.add(e[1])
            out += "".join(run(x, f, rid) for x, f in e[2])
        elif e[0] == "a":
            out += run(e[1], e[2], rels.add("slide9.xml", False))
        elif e[0] == "f":
            out += '<a:fld type="slidenum"><a:rPr/>%s</a:fld>' % t(e[1])
        elif e[0] == "br":
            out += "<a:br/>"
    return "<a:p>%s%s</a:p>" % (
        {0: "", 1: '<a:pPr algn="l"/>', 2: '<a:pPr algn="ctr" rtl="0"/>'}[
            ppr], out)


SLIDE = ("application/vnd.openxmlformats-officedocument.presentationml."
         "slide+xml")
NOTES = ("application/vnd.openxmlformats-officedocument.presentationml."
         "notesSlide+xml")


def pptx(slides, ppr=1, listing=None, bom=(), extra=(), late=False):
    """slides: list of (number, paragraphs, note number or None,
    paragraphs of the note)"""
    files, types = [], []
    n = 0

    def part(specs, base, last=()):
        rels = Rels(base)
        body = ""
        for spec in specs:
            p = pptx_paragraph(spec, part.n, rels, ppr)
            if part.n % 3 == 2:
                p = ("<p:graphicFrame><a:graphic><a:tbl><a:tr><a:tc>"
                     "<a:txBody>%s</a:txBody></a:tc></a:tr></a:tbl>"
                     "</a:graphic></p:graphicFrame>" % p)
            else:
                p = "<p:sp><p:txBody>%s</p:txBody></p:sp>" % p
                if part.n % 3 == 1:
                    p = "<p:grpSp>%s</p:grpSp>" % p
            body += p
            part.n += 1
        return (HEAD + '<p:sld xmlns:p="%s" xmlns:a="%s" xmlns:r="%s">'
                "<p:cSld><p:spTree>%s</p:spTree></p:cSld></p:sld>" % (
                    P, A, R, body), Rels(rels.items + list(last)).xml())
    part.n = n
    layout = ('<Relationship Id="rId1" Type="%s/slideLayout" '
              'Target="../slideLayouts/slideLayout1.xml"/>' % R)
    for number, specs, note, note_specs in slides:
        base = [layout]
        link = []
        if note:
            link = ['<Relationship Id="%s" Type="%s/notesSlide" '
                    'Target="../notesSlides/notesSlide%d.xml"/>' % (
                        "late" if late else "rId2", R, note)]
        xml, rels = part(specs, base + link * (not late), link * late)
        name = "ppt/slides/slide%d.xml" % number
        files += [(name, xml),
                  ("ppt/slides/_rels/slide%d.xml.rels" % number, rels)]
        types.append((name, SLIDE))
        if note:
            xml, rels = part(note_specs, [layout])
            name = "ppt/notesSlides/notesSlide%d.xml" % note
            files += [(name, xml), (
                "ppt/notesSlides/_rels/notesSlide%d.xml.rels" % note, rels)]
            types.append((name, NOTES))
    files = [(n, ("\ufeff" if "rels" in bom and n.endswith(".rels") or
                  "slides" in bom and n.endswith(".xml") else "") + c)
             for n, c in files]
    if listing:
        types = [types[i] for i in listing]
    return archive([
        ("[Content_Types].xml", HEAD + '<Types xmlns="%s"><Default '
         'Extension="png" ContentType="image/png"/>%s</Types>' % (
             CT, "".join('<Override PartName="/%s" ContentType="%s"/>' % x
                         for x in types))),
        ("ppt/slideLayouts/slideLayout1.xml", HEAD +
         '<p:sldLayout xmlns:p="%s"/>' % P),
        ("ppt/media/i.png", b"\x89PNG\r\n\x1a\n\x00\xff"),
    ] + files + list(extra))


# -- reader


def q(ns, name):
    return "{%s}%s" % (ns, name)


def targets(rels):
    return {e.get("Id"): (e.get("Target"), e.get("TargetMode"))
            for e in ElementTree.fromstring(rels)}


def read(kind, xml, rels):
    """Paragraphs of a part as lists of dicts text, fmt, url, field."""
    links = targets(rels)
    ns = W if kind == "docx" else A
    root = ElementTree.fromstring(xml)
    up = {c: p for p in root.iter() for c in p}
    out = []
    for p in root.iter(q(ns, "p")):
        items = []
        for t in p.iter(q(ns, "t")):
            run = up[t]
            fmt = url = None
            rpr = run.find(q(ns, "rPr"))
            field = run.tag == q(ns, "fld")
            rid = None
            if kind == "docx":
                if run.tag != q(ns, "r"):
                    raise ValueError("text outside of a run: %s" % run.tag)
                if rpr is not None:
                    fmt = next((f for f in "biu" if
                                rpr.find(q(ns, f)) is not None), None)
                parent = up[run]
                if parent.tag == q(ns, "hyperlink"):
                    rid = parent.get(q(R, "id"))
                    parent = up[parent]
                if parent is not p:
                    raise ValueError("run inside of %s" % parent.tag)
            else:
                if rpr is not None:
                    fmt = next((f for f in "biu" if rpr.get(f)), None)
                    link = rpr.find(q(ns, "hlinkClick"))
                    rid = link.get(q(R, "id")) if link is not None else None
                if up[run] is not p:
                    raise ValueError("run inside of %s" % up[run].tag)
            if rid and links[rid][1] == "External":
                url = links[rid][0]
            items.append(dict(text="".join(t.itertext()), fmt=fmt, url=url,
                              field=field))
        out.append(items)
    return out


def tree(xml, drop=("txid",)):
    """A part as nested tuples, without the attributes to drop."""
    def conv(e):
        return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items()
                                    if k not in drop)),
                (e.text or ""), tuple(conv(c) for c in e), (e.tail or ""))
    return conv(ElementTree.fromstring(xml))


# -- reference

def parts_of(items, blanks=False):
    """The string of a paragraph (None if there is none) and its parts:
    [text, url, indexes of the text elements].

    Text elements follow each other in the string.  Those of one url are
    inside of <tx href>, all but the first and the last one, and those that
    open a link, are inside of a <tx> of their own (in a paragraph of two
    elements both).  Blank ones are put in front of the next one, fields are
    left out.  Texts without a tag between them form one part.
    """
    out, parts = "", []
    pending, opened, joined = 0, None, False
    for i, a in enumerate(items):
        text = a["text"]
        if not blanks:
            if not text.strip():
                pending += len(text)
                continue
            text = " " * pending + text
            pending = 0
        if a["field"]:
            continue
        url = a["url"]
        inner = url is None or url == opened
        wrap = inner and (len(items) == 2 or 0 < i < len(items) - 1)
        raw = text
        if wrap:
            text = "<tx>%s</tx>" % text
        if url != opened:
            text = (("</tx>" if opened else "") +
                    ('<tx href="%s">' % url if url else "") + text)
        if raw:
            if (parts and joined and not wrap and url == opened):
                parts[-1][0] += raw
                parts[-1][2].append(i)
            else:
                parts.append([raw, url, [i]])
            joined = not wrap
        elif wrap or url != opened:
            joined = False
        opened = url
        out += text
    if opened:
        out += "</tx>"
    if not any(t.strip() for t, _, _ in parts):
        return None, []
    return out, parts


def markup(parts):
    """A translation made of (text, url) parts."""
    out, opened = "", None
    for text, url in parts:
        if url != opened and opened:
            out += "</tx>"
        if url and url != opened:
            out += '<tx href="%s">' % url
        opened = url
        out += "<tx>%s</tx>" % text
    return out + ("</tx>" if opened else "")


# -- spreadsheets
#
# cells: (kind, texts, url)
#   "s" shared text, "sr" shared rich text, "i" inline text, "ir" inline rich
#   text, "f" formula (texts: before, link, text, after), "F" other formula,
#   "n" number, "b" boolean, "o" empty cell, "S" shared text number texts

X = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
XT = "application/vnd.openxmlformats-officedocument.spreadsheetml."


def si(texts, rich):
    def t(x):
        return ('<t xml:space="preserve">%s</t>' % escape(x)) if x else "<t/>"
    if not rich:
        return t(texts[0])
    return "".join("<r><rPr><%s/></rPr>%s</r>" % ("bi"[k % 2], t(x))
                   for k, x in enumerate(texts))


def quoted(text):
    return '"%s"' % text.replace('"', '""')


def ref(n):
    return "%s%d" % ("ABC"[n % 3], n // 3 + 1)


def xlsx(sheets, pool=(), with_shared=True, numbers=None, order=None, bom=(),
         view=None, absolute=False):
    """sheets: list of (name, cells); numbers: file numbers of the sheets;
    order: position of the sheets in the list of parts; pool: shared texts
    for "S" cells."""
    shared = [si(*p) for p in pool]
    numbers = numbers or list(range(1, len(sheets) + 1))
    parts = []
    n = 0
    expected = []
    for (name, cells), number in zip(sheets, numbers):
        rows, links, rels = "", "", Rels(
            ['<Relationship Id="rId1" Type="%s/drawing" Target="../d.xml"/>'
             % R])
        here = []
        for k, (kind, texts, url) in enumerate(cells):
            word = Words(n)
            n += 1
            at = ref(k)
            if kind in ("s", "sr", "i", "ir", "f"):
                texts = tuple(word(t) for t in texts)
            if kind in ("s", "sr"):
                shared.append(si(texts, kind == "sr"))
                cell = '<c r="%s" s="1" t="s"><v>%d</v></c>' % (
                    at, len(shared) - 1)
            elif kind == "S":
                cell = '<c r="%s" t="s"><v>%d</v></c>' % (at, texts)
                texts = pool[texts][0]
            elif kind in ("i", "ir"):
                cell = '<c r="%s" t="inlineStr"><is>%s</is></c>' % (
                    at, si(texts, kind == "ir"))
            elif kind == "f":
                cell = '<c r="%s" t="str"><f>%s</f><v>%s</v></c>' % (
                    at, escape(formula(*texts)), escape(texts[2]))
            elif kind == "F":
                cell = '<c r="%s" t="str"><f>%s</f><v>old</v></c>' % (
                    at, escape(texts))
            elif kind == "n":
                cell = '<c r="%s"><v>%s</v></c>' % (at, texts)
            elif kind == "b":
                cell = '<c r="%s" t="b"><v>1</v></c>' % at
            else:
                cell = '<c r="%s"/>' % at
            if url:
                if url.startswith("#"):
                    links += '<hyperlink ref="%s" location="%s"/>' % (
                        at, url[1:])
                else:
                    links += '<hyperlink ref="%s" r:id="%s"/>' % (
                        at, rels.add(url))
            rows += '<row r="%d">%s</row>' % (k // 3 + 1, cell)
            here.append((kind, texts, url))
        expected.append((name, here))
        xml = ('<worksheet xmlns="%s" xmlns:r="%s"><sheetViews>%s'
               "</sheetViews><sheetData>%s</sheetData>%s</worksheet>" % (
                   X, R, "" if view is None else
                   "<sheetView%s/>" % view, rows,
                   "<hyperlinks>%s</hyperlinks>" % links if links else ""))
        path = "xl/worksheets/sheet%d.xml" % number
        parts.append((path, ("\ufeff" if "sheets" in bom else "") + HEAD +
                      xml))
        if links:
            parts.append(("xl/worksheets/_rels/sheet%d.xml.rels" % number,
                          ("\ufeff" if "rels" in bom else "") + rels.xml()))
    listing = [("xl/worksheets/sheet%d.xml" % k, "worksheet+xml")
               for k in numbers]
    if order:
        listing = [listing[k] for k in order]
    types = [("xl/workbook.xml", "sheet.main+xml")] + listing
    if with_shared:
        types.append(("xl/sharedStrings.xml", "sharedStrings+xml"))
        parts.append(("xl/sharedStrings.xml",
                      ("\ufeff" if "shared" in bom else "") + HEAD +
                      '<sst xmlns="%s">%s</sst>' % (X, "".join(
                          "<si>%s</si>" % s for s in shared))))
    book = "".join('<sheet name=%s sheetId="%d" r:id="rId%d"/>' % (
        quoteattr(name), k + 1, k + 5) for k, (name, _) in enumerate(sheets))
    links = "".join('<Relationship Id="rId%d" Type="%s/worksheet" '
                    'Target="%sworksheets/sheet%d.xml"/>' % (
                        k + 5, R, "/xl/" if absolute else "", number)
                    for k, number in enumerate(numbers))
    return expected, archive([
        ("[Content_Types].xml", ("\ufeff" if "types" in bom else "") + HEAD +
         '<Types xmlns="%s"><Default Extension="png" '
         'ContentType="image/png"/>%s</Types>' % (CT, "".join(
             '<Override PartName="/%s" ContentType="%s%s"/>' % (p, XT, c)
             for p, c in types))),
        ("xl/workbook.xml", ("\ufeff" if "book" in bom else "") + HEAD +
         '<workbook xmlns="%s" xmlns:r="%s"><sheets>%s</sheets></workbook>' % (
             X, R, book)),
        ("xl/_rels/workbook.xml.rels", HEAD + '<Relationships xmlns="%s">%s'
         "</Relationships>" % (PK, links)),
        ("xl/media/i.png", b"\x89PNG\r\n\x1a\n\x00\xff"),
    ] + parts)


def formula(before, link, text, after):
    return "%sHYPERLINK(%s,%s)%s" % (before, quoted(link), quoted(text),
                                     after)


def read_xlsx(data):
    """{sheet part: {cell: (texts, formats, url, formula)}}, sheet names,
    directions, and the attributes that spreadsheets don't know."""
    mem = dict(members(data))
    shared = []
    if "xl/sharedStrings.xml" in mem:
        shared = list(ElementTree.fromstring(mem["xl/sharedStrings.xml"]))
    strange = []
    for name, xml in mem.items():
        if name.startswith("xl/") and name.endswith(".xml"):
            strange += [name for e in ElementTree.fromstring(xml).iter()
                        if "txid" in e.attrib]
    out, views = {}, {}
    for name, xml in mem.items():
        if not name.startswith("xl/worksheets/sheet"):
            continue
        root = ElementTree.fromstring(xml)
        rels = mem.get(name.replace("sheets/", "sheets/_rels/") + ".rels")
        links = targets(rels) if rels else {}
        urls = {}
        for h in root.iter(q(X, "hyperlink")):
            rid = h.get(q(R, "id"))
            urls[h.get("ref")] = links[rid][0] if rid else (
                "#" + h.get("location"))
        cells = {}
        for c in root.iter(q(X, "c")):
            where = c
            if c.get("t") == "s":
                where = shared[int(c.find(q(X, "v")).text)]
            elif c.get("t") == "inlineStr":
                where = c.find(q(X, "is"))
            else:
                where = None
            texts, fmts = [], []
            if where is not None:
                up = {k: p for p in where.iter() for k in p}
                for t in where.iter(q(X, "t")):
                    texts.append("".join(t.itertext()))
                    rpr = up[t].find(q(X, "rPr"))
                    fmts.append(None if rpr is None else
                                rpr[0].tag.split("}")[1])
            f = c.find(q(X, "f"))
            v = c.find(q(X, "v"))
            cells[c.get("r")] = (
                texts, fmts, urls.get(c.get("r")),
                f.text if f is not None else None,
                v.text if where is None and v is not None else None)
        out[name] = cells
        views[name] = [v.get("rightToLeft")
                       for v in root.iter(q(X, "sheetView"))]
    names = [s.get("name") for s in ElementTree.fromstring(
        mem["xl/workbook.xml"]).iter(q(X, "sheet"))]
    return out, names, views, strange
