"""C41 - InDesign: texts of stories are found in order and only they change."""
from __future__ import unicode_literals

import itertools
import re
from xml.etree import ElementTree

from vp.core import Violation, expect
from vp.docs import translated
from vp.ooxml import archive, members

# content, translatable?
CONTENTS = [
    ("W", True), ("  W x\t", True), ("", False), (" \n ", False),
    ("12", False), (" -1.5e3 ", False), ("\u0663", False), ("\u00bd", False),
    ("<?ACE 7?>", False), ("<?ACE 18?> of W", True), ("W &amp; W&lt;&#x41;", True),
    ("\u2028W\u2028", True), ("\u05d0\u4e00", True), ("#", True),
    ("\U0001F600", True), ("\ufeff", False), ("\ufeffW", True), (".", True),
    ("12 W", True), ("1,5", True), ("1.000,50", True), ("$5", True), ("5%", True),
    ("1/2", True), ("1 2", False), ("+5", False), ("5.", False), ("0x1F", True), ("<Br/>;", False), ("W<Br/>", True), ("%s \\1 {}", True),
    ("\u0301", False), ("5 <?ACE 8?>", False), ("&#160;", True),
]
CORE = [0, 1, 2, 4, 8, 10, 11]
TOKENS = ["a", "&", "amp;", "&amp;", "#65;", "&#x41;", "&#", "<", "<Br/>",
          "<?ACE 18?>", "<?ACE 99?>", ">", "<?ACE 17?>", "&#xAf;", "&#xaF;",
          "<?ACE 13?>", "<?ACE 1?>", "<?ACE 3?>", "<?ACE 8?>", "<?ACE 7?>",
          "<?ACE 19?>", "&#X41;", "&quot;", "&apos;", "&gt;", "\"'", " ", "\u05d0", "\\1",
          "&lt;", "&foo;", "\n", "/>"]
WORDS = 4


def H():
    from openformats.formats.indesign import InDesignHandler
    return InDesignHandler()


def escaped(text):
    """Independent of the regular expressions of the handler."""
    out, i = "", 0
    keep = ("?ACE 18?", "?ACE 19?", "?ACE 3?", "?ACE 8?", "?ACE 7?", "Br/")
    while i < len(text):
        c = text[i]
        if c == "&":
            end = text.find(";", i)
            name = text[i + 1:end] if end > 0 else ""
            ok = name in ("lt", "gt", "amp", "apos", "quot") or (
                name[:2] == "#x" and len(name) > 2 and
                set(name[2:]) <= set("0123456789abcdefABCDEF")) or (
                name[:1] == "#" and len(name) > 1 and
                set(name[1:]) <= set("0123456789"))
            out += "&" if ok else "&amp;"
        elif c == "<":
            out += "<" if text[i + 1:].startswith(
                tuple(k + ">" for k in keep)) else "&lt;"
        else:
            out += c
        i += 1
    return out


def story(contents, n, eol="\n"):
    """A story and its translatable texts."""
    out, texts = "<?xml version=\"1.0\"?>" + eol + "<Story Self=\"u%d\">" % n, []
    for i, (c, ok) in enumerate(contents):
        c = c.replace("W", "w%dn%d" % (n, i))
        glue = ("", eol + "  ", "<Br/>")[i % 3]
        out += "<P>%s<C><Content>%s</Content></C><Properties>no %d" \
            "</Properties></P>" % (glue, c, i)
        if ok:
            texts.append(c.strip())
    return out + "<Content/></Story>" + eol, texts


def package(stories, listed, extra=()):
    """stories: (file name, xml)."""
    return archive([
        ("mimetype", "application/vnd.adobe.indesign-idml-package"),
        ("META-INF/container.xml", "<a/>"),
        ("designmap.xml", "<?xml version=\"1.0\"?>\n<Document%s><Content>no"
         "</Content></Document>" % (
             "" if listed is None else
             " StoryList=\"%s\"" % " ".join(listed))),
        ("Resources/Fonts.xml", "<Content>no</Content>"),
    ] + list(stories) + [("Spreads/S.xml", "<Content>no</Content>"),
                         ("i.bin", b"\x00\xff\r\n")] + list(extra))


def ordered(stories, listed):
    names = ["Stories/Story_%s.xml" % s for s in listed or ()]
    have = [n for n, _ in stories]
    return [n for n in names if n in have] + [
        n for n in have if n not in names and
        (n.startswith("Stories") or n == "XML/BackingStory.xml")]


def trace(ctx, parts, listed, mode, skip, handlers=None):
    """parts: (file name, contents)"""
    made = [(name, story(c, n)) for n, (name, c) in enumerate(parts)]
    src = package([(n, x) for n, (x, _) in made], listed)
    order = ordered(made, listed)
    texts = dict((n, t) for n, (_, t) in made)
    want = [t for n in order for t in texts[n]]
    one, two = handlers or (H(), H())
    ctx.step(2)
    template, got = one.parse(src)
    got = list(got)
    expect([g.string for g in got], want, "strings", parts=parts,
           listed=listed)
    expect([(g.key, g.order) for g in got],
           [("%d" % i, i) for i in range(len(want))], "keys and order")
    expect(len(set(g.string_hash for g in got)), len(want), "hashes")
    smem, tmem = members(src), members(template)
    expect([n for n, _ in tmem], [n for n, _ in smem], "files of the template")
    if mode == "same":
        out = two.compile(template, got)
        expect(members(out), smem, "files of the compiled archive")
        return
    values, trans = [], []
    for i, g in enumerate(got):
        value = MODES[mode](i, g.string)
        if skip and i % 3 == skip - 1:
            values.append("")
            continue
        values.append(escaped(value))
        trans.append(translated(got, i, value))
    out = two.compile(template, trans)
    ctx.outcome(values)
    # the expected archive: texts of stories are replaced one by one
    todo = iter(values)
    expected = {}
    for name in order:
        xml = dict((n, x) for n, (x, _) in made)[name]
        for t in texts[name]:
            head, tail = xml.split("<Content>", 1)[0], None
            # the next content with exactly this text
            m = re.search("<Content>\\s*(%s)\\s*</Content>" % re.escape(t),
                          xml)
            xml = xml[:m.start(1)].replace("<Content>", "<CONTENT>") + next(
                todo).replace("<Content>", "<CONTENT>") + xml[m.end(1):]
        expected[name] = xml.replace("<CONTENT>", "<Content>")
    for name, data in members(out):
        if name in expected:
            expect(data.decode("utf-8"), expected[name], "story " + name,
                   parts=parts, listed=listed, mode=mode)
            try:
                ElementTree.fromstring(data)
            except ElementTree.ParseError as e:
                raise Violation("the story is not well-formed", error=str(e),
                                story=data)
        else:
            expect(data, dict(smem)[name], "file " + name)
    expect([n for n, _ in members(out)], [n for n, _ in smem],
           "files of the compiled archive")


MODES = {
    "words": lambda i, s: "T%d" % i,
    "special": lambda i, s: "<T%d> & &amp; \"x\" ]] <?ACE 18?> <Br/> \u05d0"
    "\U0001F600 \\1 %%s <?ACE 99?> %s" % (i, s),
    "spaces": lambda i, s: "  T%d\n\u2028 " % i,
    "other": lambda i, s: "" if i % 2 else "T",
}


def trace_text(ctx, text):
    """One translation, in a story with one text."""
    src = package([("Stories/Story_a.xml", story([("W", True)], 0)[0])],
                  ["a"])
    h = H()
    ctx.step()
    template, got = h.parse(src)
    out = dict(members(h.compile(template, [translated(got, 0, text)])))
    xml = out["Stories/Story_a.xml"].decode("utf-8")
    expect(xml, story([("W", True)], 0)[0].replace("w0n0", escaped(text)),
           "translation", text=text)
    try:
        ElementTree.fromstring(xml.encode("utf-8"))
    except ElementTree.ParseError as e:
        if "ACE" not in text and "&#" not in text:
            raise Violation("the story is not well-formed", error=str(e))
    ctx.outcome(xml)


def trace_history(ctx, docs, shared):
    """A handler parses and compiles several files in turn."""
    one = H()
    two = one if shared else H()
    for parts, listed, mode in docs:
        trace(ctx, parts, listed, mode, 0, (one, two))


NAMES = ["Stories/Story_a.xml", "Stories/Story_b.xml", "Stories/Story_c.xml",
         "XML/BackingStory.xml", "Stories/My.xml", "Stories/sub/x.xml"]


def bounds(tier):
    return {"contents": CONTENTS, "stories": "every sequence of up to 2 (of "
            "%d of them: %d) contents" % (len(CORE), depth(tier)),
            "packages": "every order and choice of up to 4 stories and every "
            "list of stories", "translations": sorted(MODES),
            "missing translations": "none, every third",
            "texts": "every sequence of up to %d of %r" % (
                3 if tier == "thorough" else 2, TOKENS),
            "histories": "every sequence of up to 3 files"}


ASSUMPTIONS = ("an in-memory stand-in of ucflib, which is not installed, "
               "reads and writes the archives",
               "texts contain no newline and are no words for numbers, such "
               "as nan and infinity")


def depth(tier):
    return 5 if tier == "thorough" else 4


def shards(tier):
    return ([("contents", i) for i in range(len(CONTENTS))] +
            [("core", i) for i in CORE] +
            [("packages", i) for i in range(5)] + [("history",)] +
            [("texts", i) for i in range(len(TOKENS))])


def variants():
    for mode in ["same"] + sorted(MODES):
        for skip in (0,) if mode == "same" else (0, 1, 2, 3):
            yield mode, skip


def explore(ctx, shard):
    kind = shard[0]
    if kind in ("contents", "core"):
        some = range(len(CONTENTS)) if kind == "contents" else CORE
        for n in range(2) if kind == "contents" else range(2, depth(ctx.tier)):
            for rest in itertools.product(some, repeat=n):
                spec = [CONTENTS[i] for i in (shard[1],) + rest]
                for mode, skip in variants():
                    ctx.distinct()
                    ctx.case(trace, ctx, [(NAMES[0], spec)], ["a"], mode,
                             skip, replay=(spec, mode, skip))
        ctx.scope("stories")
    elif kind == "packages":
        lists = [None] + [l for n in range(4)
                          for l in itertools.permutations("abcz", n)]
        bodies = [[("W", True), ("12", False)], [("same", True)],
                  [("", False)], [("same", True), ("W", True)]]
        some = NAMES if shard[1] < (4 if ctx.thorough else 3) else NAMES[:4]
        for names in itertools.permutations(some, shard[1]):
            parts = list(zip(names, bodies))
            for listed in lists:
                for mode, skip in (("same", 0), ("words", 0), ("words", 2),
                                   ("words", 1)):
                    ctx.distinct()
                    ctx.case(trace, ctx, parts, listed, mode, skip,
                             replay=(parts, listed, mode, skip))
        ctx.scope("packages")
    elif kind == "history":
        docs = [([(NAMES[0], [("W", True), ("v", True)])], ["a"], "words"),
                ([(NAMES[0], [("W", True)])], ["a"], "same"),
                ([(NAMES[0], [("12", False)])], ["a"], "words"),
                ([(NAMES[1], [("v", True)]), (NAMES[0], [("u", True)])],
                 ["a", "b"], "other")]
        for n in (1, 2, 3):
            for seq in itertools.product(docs, repeat=n):
                for shared in (False, True):
                    ctx.distinct()
                    ctx.case(trace_history, ctx, seq, shared,
                             replay=(seq, shared))
        ctx.scope("histories")
    else:
        for n in range(3 if ctx.thorough else 2):
            for rest in itertools.product(TOKENS, repeat=n):
                text = TOKENS[shard[1]] + "".join(rest)
                ctx.distinct()
                ctx.case(trace_text, ctx, text, replay=text)
        ctx.scope("texts")
