"""C33 - handlers keep to their scratch folder and leave nothing behind."""
from __future__ import unicode_literals

import itertools
import os
import uuid

from vp import corpus, ooxml, ops
from vp.core import Violation, expect
from vp.docs import translated
from vp.ooxml import archive, members
from vp.world import Fault, world

OFFICE = ["docx", "pptx", "pptx2", "xlsx"]
OPS = ["parse", "compile", "reverse"]
SECRET = "S3CRET"
HEX = "00000000000040008000000000000001"


def H(name):
    if name == "docx":
        from openformats.formats.docx import DocxHandler as C
    elif name == "pptx":
        from openformats.formats.pptx import PptxHandler as C
    elif name == "pptx2":
        from openformats.formats.pptx import PptxHandlerV2 as C
    else:
        from openformats.formats.xlsx_unstructured import (
            XlsxUnstructuredHandler as C)
    return C()


def source(name, word="W"):
    p = [("t", word + " a", None), ("t", "W", "b", "http://a/")]
    if name == "docx":
        return ooxml.docx([p, p])
    if name.startswith("pptx"):
        return ooxml.pptx([(1, [p], 1, [p]), (2, [p], None, None)])
    return ooxml.xlsx([
        ("S", [("s", (word,), None), ("sr", ("W", "W"), "http://a/"),
               ("i", ("W \u03b1",), None),
               ("f", ("", "http://b/", "W", ""), None)]),
        ("T", [("s", (word + "x",), "http://c/")])])[1]


def seen(result):
    """What can be observed of a result: files and strings."""
    if isinstance(result, tuple):
        return members(result[0]), [ops.describe(s) for s in result[1]]
    return members(result)


def prepare(w):
    """The victims, and a first use of everything that is loaded late."""
    from openformats.formats import docx, pptx, xlsx_unstructured  # noqa
    for path in ("/v.xml", "/tmp/v.xml", "/cwd/v.xml", "/v.txt", "/tmp/v.txt",
                 "/cwd/v.txt", "/tmp/in.docx", "/tmp/out.xlsx"):
        with open(w.root + path, "w") as f:
            f.write(victim(path))
    os.mkdir(w.tmp + "/keep")
    os.mkdir(w.tmp + "/" + HEX + "x")
    for path in ("/keep/v.xml", "/" + HEX + "x/v.xml"):
        with open(w.tmp + path, "w") as f:
            f.write(victim(path))
    for name in OFFICE:
        h = H(name)
        t, s = h.parse(source(name))
        h.compile(t, s)
        try:
            h.parse(b"x")
        except Exception:
            pass
    for f in corpus.FORMATS:
        o = ops.Ops(f, ["", f.doc((f.units[0][0],) * max(1, f.need))] + HOSTILE.get(f.name, [])[:1])
        for op in o.ops():
            o.run(op, f.handler())


def victim(path):
    """Something that every handler can show the content of."""
    if path.endswith(".txt"):
        return 'msgid "%s"\nmsgstr "%s"\n' % (SECRET, SECRET)
    part = dict(members(ooxml.docx([[("t", SECRET, None)]])))
    return part["word/document.xml"].decode("utf-8")


def normal(w, s):
    got, e = w.run(s.call(H(s.name)))
    if e is not None:
        raise e
    return seen(got)


class Subject(object):
    """One operation of an Office handler."""

    def __init__(self, name, op):
        self.name, self.op = name, op
        src = source(name)
        self.src = src
        self.template, self.strings = H(name).parse(src)

    def call(self, handler, data=None):
        def go():
            if self.op == "parse":
                return handler.parse(self.src if data is None else data)
            return handler.compile(
                self.template if data is None else data,
                [translated(self.strings, i, "T" + s.string)
                 for i, s in enumerate(self.strings)],
                is_rtl=self.op == "reverse")
        return go

    def data(self):
        return self.src if self.op == "parse" else self.template


def after(ctx, w, before, what, **info):
    """What must hold when an operation has ended, however it did."""
    if w.escapes:
        raise Violation("reached outside of its folder", events=w.escapes,
                        where=what, **info)
    now = w.snapshot()
    if now != before:
        changed = sorted(k.replace(w.root, "") for k in set(now) | set(before)
                         if now.get(k, 0) != before.get(k, 0))
        w.clean()
        names = {k.replace(HEX, "<folder>") for k in changed}
        raise Violation("changed or left behind files", files=sorted(names),
                        where=what, **info)


def trace_fault(ctx, subject, kind, k, error, limit=None):
    """A fault at one place; then everything is as before and works."""
    w = world(prepare)
    before = w.snapshot()
    h = H(subject.name)
    ctx.step(2)
    got, e = w.run(subject.call(h), kind, k, error, limit)
    missed = w.fail_at is not None
    after(ctx, w, before, "fault", error=repr(e))
    if e is None and not missed and limit is None:
        expect(seen(got), subject.normal, "result in spite of a fault")
    elif e is None:
        expect(seen(got), subject.normal, "result")
    ctx.outcome((subject.name, subject.op, kind, type(e).__name__, str(e)
                 .replace(w.root, "")[:80]))
    got, e2 = w.run(subject.call(h))
    if e2 is not None:
        raise Violation("failed after an earlier fault", error=repr(e2))
    expect(seen(got), subject.normal, "result after an earlier fault")
    after(ctx, w, before, "operation after a fault")
    return e is None and missed


def trace_meanwhile(ctx, subject, kind, k, other):
    """Another operation runs from start to end in the middle of one."""
    w = world(prepare)
    before = w.snapshot()
    ctx.step(2)
    inner = []
    fn = other.call(H(other.name))

    def run():
        inner.append(fn())
    got, e = w.run(subject.call(H(subject.name)), kind, k, run)
    after(ctx, w, before, "operation during another", error=repr(e))
    if e is not None:
        raise Violation("failed when another one ran meanwhile",
                        error=repr(e))
    expect(seen(got), subject.normal, "result when another one ran meanwhile")
    if inner:
        expect(seen(inner[0]), other.normal, "result of the one meanwhile")
    ctx.outcome(("meanwhile", subject.name, subject.op, other.op))
    return not inner


def patched(w, subject, kind, fn):
    """Run fn while calls of a library are places that can fail."""
    import bs4
    import zipfile
    places = {"soup": [(bs4.BeautifulSoup, "__init__")],
              "find": [(bs4.Tag, "find_all"), (bs4.Tag, "decode"),
                       (bs4.Tag, "__getitem__")],
              "zip": [(zipfile.ZipFile, "__init__"),
                      (zipfile.ZipFile, "open"), (zipfile.ZipFile, "write"),
                      (zipfile.ZipFile, "close"),
                      (zipfile.ZipFile, "namelist")]}.get(kind, [])
    old = []

    def wrap(f):
        def call(*args, **kw):
            if w.armed:
                w.point(kind)
            return f(*args, **kw)
        return call
    for cls, name in places:
        f = cls.__dict__[name]
        old.append((cls, name, f))
        setattr(cls, name, wrap(f))
    try:
        return fn()
    finally:
        for cls, name, f in old:
            setattr(cls, name, f)


KINDS = [("mkdir", Fault), ("open", Fault), ("change", Fault),
         ("zip", Fault), ("soup", MemoryError), ("soup", KeyboardInterrupt),
         ("find", MemoryError), ("zip", KeyboardInterrupt)]


def faults(ctx, name, op, part):
    w = world(prepare)
    s = Subject(name, op)
    s.normal = normal(w, s)
    if part == "calls":
        for kind, error in KINDS:
            k = bad = 0
            while True:
                k += 1
                ctx.distinct()
                done = patched(w, s, kind, lambda: ctx.case(
                    trace_fault, ctx, s, kind, k, error,
                    replay=(name, op, kind, k, error.__name__)))
                bad += done is None
                if done or bad > 20 or k > 3000:
                    break
            ctx.scope("places of kind " + kind, k - 1)
        return
    if part == "meanwhile":
        for other in OPS[:2]:
            o = s if other == op else Subject(name, other)
            o.normal = normal(w, o)
            for kind in ("mkdir", "open", "zip", "soup"):
                k = bad = 0
                while True:
                    k += 1
                    ctx.distinct()
                    done = patched(w, s, kind, lambda: ctx.case(
                        trace_meanwhile, ctx, s, kind, k, o,
                        replay=(name, op, "meanwhile", kind, k, other)))
                    bad += done is None
                    if done or bad > 20 or k > 3000:
                        break
                ctx.scope("interleavings", k - 1)
        return
    top = max(len(c) for _, c in members(s.template)) + 400
    step = 1 if ctx.thorough else 7
    start = ctx.shard[-1]
    for limit in range(start * step, top, step * SLICES):
        ctx.distinct()
        ctx.case(trace_fault, ctx, s, None, None, Fault, limit,
                 replay=(name, op, "limit", limit))
        ctx.scope("disks that are full after n bytes")


# -- damaged archives

def stored(data):
    import io
    import zipfile
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_STORED) as z:
        for n, c in members(data):
            z.writestr(zipfile.ZipInfo(n), c)
    return out.getvalue()


def trace_damage(ctx, s, data, what):
    w = world(prepare)
    before = w.snapshot()
    h = H(s.name)
    ctx.step()
    got, e = w.run(s.call(h, data))
    after(ctx, w, before, what, error=repr(e))
    ctx.outcome((s.name, s.op, type(e).__name__, str(e).replace(
        w.root, "")[:60]))
    if e is not None:
        ctx.step()
        got, e = w.run(s.call(h))
        if e is not None:
            raise Violation("failed after a damaged file", error=repr(e))
        expect(seen(got), s.normal, "result after a damaged file")


def damages(s, thorough):
    data = stored(s.data())
    n = len(data)
    for i in range(0, n, 1 if thorough else 5):
        yield "prefix %d" % i, data[:i]
    for i in range(0, n, 1 if thorough else 3):
        yield "byte %d" % i, data[:i] + bytes(bytearray(
            [bytearray(data)[i] ^ (1 << (i // 3 % 8))])) + data[i + 1:]
    parts = members(s.data())
    for i, (name, content) in enumerate(parts):
        yield "no " + name, archive(parts[:i] + parts[i + 1:])
        for j in range(i):
            yield "no %s, %s" % (parts[j][0], name), archive(
                [p for k, p in enumerate(parts) if k not in (i, j)])
        for c in (b"", b"x", b"<", b"<a/>", b"\xff", b"\x00"):
            yield "%s: %r" % (name, c), archive(
                parts[:i] + [(name, c)] + parts[i + 1:])
        if not name.endswith((".xml", ".rels")):
            continue
        cuts = [k for k in range(len(content)) if content[k:k + 1] in b"<>"]
        for k in cuts:
            yield "%s cut at %d" % (name, k), archive(
                parts[:i] + [(name, content[:k])] + parts[i + 1:])
        ends = [k for k in cuts if content[k:k + 1] == b">"]
        for k, l in zip(ends, ends[1:]):
            yield "%s without %d" % (name, l), archive(
                parts[:i] + [(name, content[:k + 1] + content[l + 1:])] +
                parts[i + 1:])


# -- names that lead elsewhere

def paths(w, depth):
    out = []
    for n in range(depth + 1):
        for mid in itertools.product(("..", ".", "a", ""), repeat=n):
            for end in ("v.xml", "..", ".", "in.docx", "out.xlsx"):
                for lead in ("", "/", "\\", "C:\\"):
                    for sep in ("/", "\\"):
                        if sep == "\\" and n == 0:
                            continue
                        out.append(lead + sep.join(mid + (end,)))
    out += [w.root + "/v.xml", w.tmp + "/v.xml", w.tmp + "/keep/v.xml",
            "../keep/v.xml", "../" + HEX + "x/v.xml", "x/../../v.xml",
            "../" + HEX + "/v.xml", "/../" + HEX + "x/v.xml",
            "%2e%2e/v.xml", "..%2fv.xml", "../v.xml\0", "file:///" + w.tmp +
            "/v.xml", "a/../../" + HEX + "x/v.xml", "../../../" + w.tmp[1:] +
            "/v.xml", "../../../../../../../.." + w.root + "/v.xml"]
    return sorted(set(out))


def rewritten(name, target):
    """Archives in which a reference to a part leads to target."""
    q = ooxml.quoteattr(target)
    parts = members(source(name))

    def with_(part, old, new):
        for n, c in parts:
            if n == part and old.encode() not in c:
                raise AssertionError((part, old))
        return archive([(n, c.replace(old.encode(), new.encode("utf-8"))
                         if n == part else c) for n, c in parts])
    if name == "docx":
        yield with_("_rels/.rels", 'Target="word/document.xml"',
                    "Target=" + q)
        return
    types = "[Content_Types].xml"
    if name == "xlsx":
        for part in ("workbook.xml", "worksheets/sheet1.xml",
                     "sharedStrings.xml"):
            yield with_(types, 'PartName="/xl/%s"' % part, "PartName=" + q)
        yield with_(types, "</Types>", '<Override PartName=%s ContentType="%s'
                    'comments+xml"/></Types>' % (q, ooxml.XT))
        yield with_("xl/_rels/workbook.xml.rels",
                    'Target="worksheets/sheet1.xml"', "Target=" + q)
        return
    for part in ("slides/slide1.xml", "notesSlides/notesSlide1.xml"):
        yield with_(types, 'PartName="/ppt/%s"' % part, "PartName=" + q)
    yield with_("ppt/slides/_rels/slide1.xml.rels",
                'Target="../notesSlides/notesSlide1.xml"', "Target=" + q)


def fixed_uuid(fn):
    real = uuid.uuid4
    import openformats.formats.xlsx_unstructured as x

    class Fixed(object):
        hex = HEX

        def __str__(self):
            return HEX
    old = getattr(x, "uuid4", None)
    uuid.uuid4 = Fixed
    if old is not None:
        x.uuid4 = Fixed
    try:
        return fn()
    finally:
        uuid.uuid4 = real
        if old is not None:
            x.uuid4 = old


def disclosed(result):
    if isinstance(result, tuple):
        template, strings = result
        for s in strings:
            if SECRET in repr(sorted(s.strings.items())):
                return "string"
        result = template
    if isinstance(result, bytes):
        for n, c in members(result):
            if SECRET.encode() in c:
                return "file " + n
    elif SECRET in str(result):
        return "text"


def trace_path(ctx, name, data, what):
    """Parse an archive with a hostile name, then compile what it gave."""
    w = world(prepare)
    before = w.snapshot()
    ctx.step()
    got, e = w.run(lambda: H(name).parse(data))
    after(ctx, w, before, what, error=repr(e))
    ctx.outcome((name, type(e).__name__))
    for round_ in range(2):
        if e is not None:
            return
        where = disclosed(got)
        if where:
            raise Violation("disclosed a file", where=where, path=what)
        if round_ == 0:
            template, strings = got
            ctx.step()
            got, e = w.run(lambda: H(name).compile(template, strings))
            after(ctx, w, before, what, error=repr(e))
    return got


def trace_member(ctx, name, path):
    """An archive with one more file, of any name: it stays what it is."""
    parts = members(source(name))
    content = b"member"
    if path in ("", ".", "..") or path.endswith("/"):
        content = b""
    out = trace_path(ctx, name, archive(parts + [(path, content)]), path)
    if out is not None:
        got = members(out)
        # zipfile itself writes names without detours
        expect(os.path.normpath("/" + got[-1][0]).strip("/"),
               os.path.normpath("/" + archive_name(path)).strip("/"),
               "name of a file")
        expect(got[-1][1], content, "content of the file " + path)


def archive_name(path):
    """What zipfile stores."""
    return members(archive([(path, b"")]))[0][0]


def trace_link(ctx, name, target):
    """A symbolic link in an archive is not followed."""
    import io
    import zipfile
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        first = [(n, c) for n, c in members(source(name))]
        info = zipfile.ZipInfo("link")
        info.create_system = 3
        info.external_attr = 0o120777 << 16
        z.writestr(info, target)
        for n, c in first:
            z.writestr(n, c)
        z.writestr("link/v.xml", "x")
        z.writestr("link", "x")
    trace_path(ctx, name, out.getvalue(), "link to " + target)


# -- formats of text

XXE = ('<!DOCTYPE resources [<!ENTITY e SYSTEM "file://%(root)s/v.txt">'
       '<!ENTITY f SYSTEM "v.txt"><!ENTITY %% p SYSTEM '
       '"file://%(root)s/v.txt">%%p;]>\n')
HOSTILE = {
    "android": ["<?xml version=\"1.0\"?>" + XXE + "<resources>"
                "<string name=\"a\">&e;&f;</string></resources>",
                "<resources><xi:include xmlns:xi=\"http://www.w3.org/2001/"
                "XInclude\" href=\"%(root)s/v.txt\" parse=\"text\"/>"
                "<string name=\"a\">b</string></resources>"],
    "yaml": ["a: !!python/object/apply:os.system [\"touch %(root)s/w\"]\n",
             "a: !!python/object/new:os.system [\"touch %(root)s/w\"]\n",
             "!!python/object/apply:open [\"%(root)s/w\", \"w\"]\n",
             "a: !!python/name:os.system\n", "a: !!python/module:antigravity"
             "\n", "a: !!python/object/apply:subprocess.check_output\n"
             "  args: [[cat, \"%(root)s/v.txt\"]]\n",
             "? !!python/tuple [a, b]\n: c\n",
             "a: !include %(root)s/v.txt\n", "a: !!python/object:io.open {}\n",
             "a: !!python/object/apply:io.open [%(root)s/v.txt]\n"],
    "po": ["%(root)s/v.txt", "v.txt", "%(root)s", "../v.txt",
           "%(root)s/v.txt\n", "file://%(root)s/v.txt",
           "msgid \"a\"\nmsgstr \"b\"\n#: %(root)s/v.txt:1\n"],
    "plaintext": ["%(root)s/v.txt", "v.txt", "{%% include v.txt %%}",
                  "!include(v.txt)", "$(cat v.txt) `cat v.txt`"],
    "json": ["{\"$ref\": \"%(root)s/v.txt\", \"a\": \"@v.txt\"}",
             "%(root)s/v.txt", "v.txt"],
}
for _to, _from in (
        ("android_unescaped beta_android stringsdict customizable_xml",
         "android"), ("yaml_i18n", "yaml"), ("pot", "po"),
        ("structuredjson arb chrome chromev3", "json"),
        ("srt vtt markdown markdown_v2 jsx", "plaintext")):
    for _n in _to.split():
        HOSTILE[_n] = list(HOSTILE[_from])
for _n in ("markdown", "markdown_v2"):
    HOSTILE[_n] += ["---\n" + d + "---\ntext\n" for d in HOSTILE["yaml"]]
    HOSTILE[_n] += ["![a](%(root)s/v.txt)\n\n[a]: file://%(root)s/v.txt\n",
                    "<img src=\"%(root)s/v.txt\">\n\n<!--#include file=\""
                    "v.txt\"-->\n"]
HOSTILE["stringsdict"] += [
    "<?xml version=\"1.0\"?>" + XXE + "<plist><dict><key>a</key><dict>"
    "<key>NSStringLocalizedFormatKey</key><string>%%#@b@</string>"
    "<key>b</key><dict><key>NSStringFormatSpecTypeKey</key>"
    "<string>NSStringPluralRuleType</string><key>other</key>"
    "<string>&e;&f;</string></dict></dict></dict></plist>"]


def trace_text(ctx, f, o, op, hostile):
    w = world(prepare)
    before = w.snapshot()
    ctx.step()
    given = o.inputs(op)
    got, e = w.run(lambda: o.run(op, f.handler(), given))
    after(ctx, w, before, "%s of text" % op[0])
    if e is not None:
        raise e
    if w.made:
        raise Violation("worked on files")
    ctx.outcome((f.name, got[0]))
    if hostile:
        text = repr(got[0])
        if SECRET in text:
            raise Violation("disclosed a file", result=text)


def trace_entity(ctx, name, part, root):
    """References to outside files in the parts of an archive."""
    parts = []
    for n, c in members(source(name)):
        if n == part:
            head, body = c.decode("utf-8").split("?>", 1)
            tag = body.strip()[1:].split(" ")[0].split(">")[0]
            body = (XXE % {"root": root}).replace("resources", tag) + \
                body.strip().replace("p0w0", "p0w0 &e;&f;").replace(
                    "</", "&e;&f;</")
            c = (head + "?>\n" + body).encode("utf-8")
        parts.append((n, c))
    trace_path(ctx, name, archive(parts), "entity in " + part)


SLICES = 4
DAMAGE = 4


def bounds(tier):
    return {"Office formats": OFFICE, "operations": OPS,
            "faults": ["%s: %s" % (k, e.__name__) for k, e in KINDS],
            "fault places": "every call of each kind of every operation",
            "interleavings": "another operation at every one of these places",
            "full disk": "after every %s byte" % (
                "" if tier == "thorough" else "seventh"),
            "damage": "every prefix and byte (quick: every fifth and third) "
            "of an archive, every one and two parts missing, every part "
            "replaced by 6 contents, every tag at which a part can end and "
            "every tag left out",
            "names": "every path of up to %d components, as the name of a "
            "file and in every reference between parts" % (
                3 if tier == "thorough" else 2),
            "text formats": [f.name for f in corpus.FORMATS],
            "hostile texts": sum(len(v) for v in HOSTILE.values())}


ASSUMPTIONS = ("faults strike before the scratch folder is being removed",)


def shards(tier):
    out = [("calls", n, o) for n in OFFICE for o in OPS]
    out += [("meanwhile", n, o) for n in OFFICE for o in OPS]
    out += [("limit", n, o, i) for n in OFFICE for o in OPS
            for i in range(SLICES)]
    out += [("damage", n, o, i) for n in OFFICE for o in OPS[:2]
            for i in range(DAMAGE)]
    out += [("names", n, i) for n in OFFICE for i in range(4)]
    out += [("text", f.name) for f in corpus.FORMATS]
    return out


def explore(ctx, shard):
    kind, name = shard[:2]
    w = world(prepare)
    if kind in ("calls", "meanwhile", "limit"):
        faults(ctx, name, shard[2], kind)
    elif kind == "damage":
        s = Subject(name, shard[2])
        s.normal = normal(w, s)
        for i, (what, data) in enumerate(damages(s, ctx.thorough)):
            if i % DAMAGE != shard[3]:
                continue
            ctx.distinct()
            ctx.scope("damaged archives")
            ctx.case(trace_damage, ctx, s, data, what,
                     replay=(name, shard[2], what))
    elif kind == "names":
        todo = []
        for path in paths(w, 3 if ctx.thorough else 2):
            if "\0" not in path:
                todo.append((trace_member, (ctx, name, path), path))
            for i, data in enumerate(rewritten(name, path)
                                     if "\0" not in path else ()):
                todo.append((trace_path, (ctx, name, data, path), (path, i)))
        for target in ("/", w.root, w.tmp + "/keep", "..", "../keep",
                       w.root + "/v.xml"):
            todo.append((trace_link, (ctx, name, target), target))
        for part, _ in members(source(name)):
            if part.endswith((".xml", ".rels")):
                todo.append((trace_entity, (ctx, name, part, w.root), part))
        for i, (fn, args, what) in enumerate(todo):
            if i % 4 == shard[2]:
                ctx.distinct()
                ctx.scope("hostile names")
                fixed_uuid(lambda: ctx.case(
                    fn, *args, replay=repr((fn.__name__, name, what))
                    .replace(w.root, "<scratch>")))
    else:
        f = corpus.BY_NAME[name]
        good = [f.doc(u) for u in f.docs(max(1, f.need))]
        hostile = [d % {"root": w.root} for d in HOSTILE[name]]
        for docs, bad in ((good, False), (hostile, True)):
            o = ops.Ops(f, docs)
            for op in o.ops():
                ctx.distinct()
                ctx.scope("operations of text formats")
                ctx.case(trace_text, ctx, f, o, op, bad,
                         replay=(name, op, docs[op[1]].replace(
                             w.root, "<scratch>")))
