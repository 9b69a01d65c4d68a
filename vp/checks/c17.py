"""C17 - customizable XML: extraction, round trip, custom names, removal."""
from __future__ import unicode_literals

import itertools

from vp.core import expect
from vp.docs import S, compare_stringset, dos, translated

NAMES = {
    "default": ({}, ("strings", "section", "name", "string", "key", "base",
                     "variant", "context")),
    "custom": (dict(root_name="root", section_name="group",
                    section_id_name="gid", string_name="str",
                    string_key_name="id", base_string_name="src",
                    variant_string_name="alt", variant_string_id_name="when"),
               ("root", "group", "gid", "str", "id", "src", "alt", "when")),
    # names that are prefixes of one another
    "nested": (dict(root_name="s", section_name="se", section_id_name="n",
                    string_name="st", string_key_name="na",
                    base_string_name="b", variant_string_name="ba",
                    variant_string_id_name="k"),
               ("s", "se", "n", "st", "na", "b", "ba", "k")),
}
TEXTS = ["x", " padded ", "a &lt;b&gt; &amp; \"q\"", "one\n two",
         "\u03b1\U0001F600", "<b>bold</b> tail", "<![CDATA[<i>&]]>", "{} %d",
         "<br/>", "<!-- c -->", "0123456789abcdef0123456789abcdef_tr0"]
HEADS = {"none": "", "xml": "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
         "comment": "<?xml version=\"1.0\"?>\n<!-- a comment -->\n\n"}
LAYOUTS = {"nl": ("\n  ", "\n    ", "\n      ", "\n"),
           "tight": ("", "", "", ""), "sp": (" ", "\n\n", "\n\t", " ")}


# items of a string tag: ("base", text) ("variant", ctx, text)
# ("baseattr", text) ("emptybase",) ("singlebase",) ("other",) ("comment",)
def item(n, it, out):
    k = it[0]
    if k == "base":
        return "<%s>" % n[5], it[1], "</%s>" % n[5], ""
    if k == "baseattr":
        return "<%s lang='en' a=\"1\">" % n[5], it[1], "</%s>" % n[5], ""
    if k == "variant":
        return ("<%s %s=\"%s\">" % (n[6], n[7], it[1]), it[2],
                "</%s>" % n[6], "::" + it[1])
    return {"emptybase": "<%s></%s>" % (n[5], n[5]),
            "singlebase": "<%s a=\"1\"/>" % n[5],
            "singlevariant": "<%s %s=\"q\" />" % (n[6], n[7]),
            "other": "<other %s=\"z\">not this</other>" % n[4],
            "comment": "<!-- <%s>no</%s> -->" % (n[5], n[5])}[k]


class File(object):
    """sections: list of (section id or None for things outside a section,
    [(key, [items]) | literal template])"""

    def __init__(self, sections, names="default", layout="nl", head="xml",
                 tail="\n"):
        self.kw, n = NAMES[names]
        l1, l2, l3, e = LAYOUTS[layout]
        segs, strings = [HEADS[head] + "<%s>" % n[0]], []
        for sid, entries in sections:
            if sid is not None:
                segs.append(l1 + "<%s %s=\"%s\">" % (n[1], n[2], sid))
            for key, items in entries:
                if key is None:
                    segs.append(l2 + items.format(*n))
                    continue
                segs.append(l2 + "<%s %s=\"%s\">" % (n[3], n[4], key))
                for it in items:
                    got = item(n, it, None)
                    if not isinstance(got, tuple):
                        segs.append(l3 + got)
                        continue
                    op, text, cl, suffix = got
                    segs.append(l3 + op)
                    if sid is None:
                        segs.append(text)
                    else:
                        segs.append(len(strings))
                        strings.append(S(key + suffix, text, context=sid))
                    segs.append(cl)
                segs.append(l2 + "</%s>" % n[3])
            if sid is not None:
                segs.append(l1 + "</%s>" % n[1])
        segs.append(e + "</%s>" % n[0] + tail)
        self.segs, self.strings, self.head = segs, strings, HEADS[head]

    def fill(self, values, keep=lambda i: True):
        return "".join(s if not isinstance(s, int) else
                       (values[s] if keep(s) else "") for s in self.segs)


LITERALS = [
    "<{3} {4}=\"single\"/>", "<{3} {4}=\"e\"></{3}>", "<misc>text</misc>",
    "<!-- comment <{3} {4}='c'> -->", "<{3}>\n</{3}>", "plain text",
    "<misc><{5}>x</{5}></misc>",
]


def kinds():
    t = TEXTS
    return [
        lambda i: ("k%d" % i, [("base", t[i % len(t)])]),
        lambda i: ("k%d" % i, [("base", t[(i + 1) % len(t)]),
                               ("variant", "m", t[(i + 2) % len(t)]),
                               ("variant", "f.x", t[(i + 3) % len(t)])]),
        lambda i: ("k%d" % i, [("variant", "m", "v"), ("base", "after")]),
        lambda i: ("k%d" % i, [("emptybase",), ("comment",), ("other",),
                               ("variant", "z", "v%d" % i)]),
        lambda i: ("k%d" % i, [("singlebase",), ("singlevariant",)]),
        lambda i: ("k%d" % i, [("baseattr", t[(i + 5) % len(t)]),
                               ("singlevariant",), ("other",),
                               ("comment",)]),
    ] + [lambda i, l=l: (None, l) for l in LITERALS]


def bounds(tier):
    return {"texts": TEXTS, "names": NAMES, "layouts": sorted(LAYOUTS),
            "heads": sorted(HEADS), "literals": LITERALS,
            "sections": "all sequences of 1-%d of %d entry kinds split into "
                        "sections at every point" % (
                            4 if tier == "thorough" else 3, len(kinds())),
            "missing": "every subset of the strings",
            "newlines": ["UNIX", "DOS"]}


def H(f):
    from openformats.formats.customizable_xml import CustomizableXMLHandler
    return CustomizableXMLHandler(**f.kw)


def trace(ctx, f):
    raws = [s.raw for s in f.strings]
    convs = [lambda t: t]
    # the newline style is that of the root element
    if "\n" in f.fill([""] * len(raws))[len(f.head):]:
        convs.append(dos)
    for conv in convs:
        src = conv(f.fill(raws))
        ctx.step()
        tmpl, got = H(f).parse(src)
        compare_stringset(got, f.strings, src)
        want = conv(f.fill([s.template_replacement for s in got]))
        expect(tmpl, want, "template", source=src)
        ctx.step()
        out = H(f).compile(tmpl, iter(got))
        expect(out, src, "compiling the unchanged strings", template=tmpl)
        vals = ["<b>T%d</b>\n\\1 {}" % i if i % 2 else "T%d" % i
                for i in range(len(got))]
        objs = [translated(got, i, v) for i, v in enumerate(vals)]
        for mask in range(2 ** len(objs)):
            def keep(i):
                return bool(mask >> i & 1)
            ctx.step()
            out = H(f).compile(tmpl, [o for i, o in enumerate(objs)
                                      if keep(i)])
            expect(out, conv(f.fill(vals, keep)), "compiling translations",
                   source=src, template=tmpl, present=mask)
            ctx.outcome(out)


def run(ctx, f):
    src = f.fill([s.raw for s in f.strings])
    if ctx.state((src, sorted(f.kw))):
        ctx.case(trace, ctx, f, replay={"source": src, "names": f.kw})
    return src


def shards(tier):
    n = len(kinds())
    return ([("seq", i, j) for i in range(n) for j in range(n)] +
            [("text", i, 0) for i in range(len(TEXTS))])


def explore(ctx, shard):
    fam, i, j = shard
    ks = kinds()
    if fam == "text":
        for t in TEXTS:
            for nm in sorted(NAMES):
                for lay in sorted(LAYOUTS):
                    for hd in sorted(HEADS):
                        for tail in ("", "\n", "\n<!-- end -->\n"):
                            run(ctx, File([("s.1", [("a b", [
                                ("base", TEXTS[i]), ("variant", "c", t)])])],
                                nm, lay, hd, tail))
        return
    for r in range(0, 3 if ctx.thorough else 2):
        for rest in itertools.product(range(len(ks)), repeat=r):
            seq = (i, j) + rest
            entries = [ks[k](n) for n, k in enumerate(seq)]
            for cut in range(len(seq) + 1):
                # entries before the cut: one section; after it: another
                # section, or outside of any section
                for second in ("s2", None):
                    secs = [("s1", entries[:cut]), (second, entries[cut:])]
                    for order in (secs, secs[::-1]):
                        for nm, lay in (("default", "nl"), ("nested", "tight"),
                                        ("custom", "sp")):
                            src = run(ctx, File(order, nm, lay))
    if i == j:
        for nm in sorted(NAMES):
            for lay in sorted(LAYOUTS):
                run(ctx, File([("s", [ks[i](3)])], nm, lay))
                run(ctx, File([("s", [])], nm, lay))
                run(ctx, File([], nm, lay))
    ctx.sample(src)
