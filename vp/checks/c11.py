"""C11 - Android resources: extraction, template, round trip, translation."""
from __future__ import unicode_literals

import itertools

from vp.android import Arr, Comment, Other, Plu, RULES, Res, Str
from vp.core import expect
from vp.docs import check_doc

TEXTS = ["x", " padded ", "a <b>c</b> d", "<![CDATA[<i> & ]] ]]>", "&lt;b&gt; &amp;",
         "it\\'s \\\"q\\\"", "<xliff:g id=\"n\" example='1'>%1$s</xliff:g>",
         "line\n    two", "<br/>", "\u03b1\U0001F600", "@string/x", "a<!-- c -->b",
         "\\u0020", "</"[:0] + "> ]]>", "x_tr"]
NAMES = ["k", "a.b", "a[0]", "b\\", "\\[", "\u03b1:x", "it's", "&amp;", "k k"]
EMPTY = ["<string name=\"e\"></string>", "<string name=\"e\"/>",
         "<string name=\"e\"> \n </string>", "<string-array name=\"e\"/>",
         "<string-array name=\"e\"></string-array>",
         "<string-array name=\"e\">\n    <item></item>\n  </string-array>",
         "<plurals name=\"e\"><item quantity=\"one\"></item>"
         "<item quantity=\"other\"> </item></plurals>",
         "<string-array name=\"e\"><item/> <item> </item></string-array>"]
OTHER = ["<color name=\"c\">#fff</color>", "<eat-comment/>",
         "<style name=\"s\" parent=\"p\">\n    <item name=\"q\">1</item>\n"
         "  </style>", "<skip /> "[:-1],
         "<integer name=\"translatable\">1</integer>"]
IGNORED = ["<string name=\"i\" translatable=\"false\">no</string>",
           "<string translatable='false' name=\"i\"><b>no</b></string>",
           "<string-array name=\"i\" translatable=\"false\">\n    "
           "<item>no</item>\n  </string-array>",
           "<plurals name=\"i\" translatable=\"false\"><item "
           "quantity=\"other\">no</item></plurals>"]
HEADS = ["", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n",
         "<?xml version='1.0'?>\n<!-- <string> licence -->\n"]
ROOTS = ["<resources>", "<resources xmlns:xliff=\"urn:x\"\n  "
         "xmlns:tools='t'>", "<resources tools:ignore=\"a>b\">"]
FOOTS = ["\n", "", "\n\n"]
GAPS = [("\n  ", "\n"), ("", ""), ("\n\n    ", "\n  "), (" ", " ")]
PLAYOUT = [("\n    ", "\n  "), ("", ""), (" ", " "), ("\n\n\t", "\n"),
           ("\n    ", "\n    ")]


def bounds(tier):
    return {"texts": TEXTS, "names": NAMES, "headers": HEADS, "roots": ROOTS,
            "gaps": GAPS, "plural layouts": PLAYOUT,
            "children": "all sequences of 1-3 (thorough 4) of 9 child kinds",
            "plural rules": "all subsets with 'other' of the 6 rules, in "
                            "source order and rotated",
            "newlines": "unix and dos", "handlers": handlers()}


def handlers():
    return ["android.AndroidHandler", "android_unescaped."
            "AndroidUnescapedHandler"]


def factory(path):
    import importlib
    mod, cls = path.split(".")
    return getattr(importlib.import_module("openformats.formats." + mod), cls)


def t_plain(i, s):
    if s.pluralized:
        return {5: "other T"}
    return "T%d" % i


def t_markup(i, s):
    if s.pluralized:
        return {r: "<b>%d</b> \\'" % r for r in (1, 2, 3, 5)}
    return "<i>T</i> \\n &amp; $1 \\1 {0} %s"


def t_shift(i, s):
    if s.pluralized:
        return {0: "z", 1: "1", 2: "2", 3: "3", 4: "4", 5: "5"}
    return "%s</x>%s" % (i, s.raw)


TRANS = [t_plain, t_markup, t_shift]


def trace(ctx, res, trans=TRANS):
    src = res.source()
    for h in handlers():
        if "unescaped" in h and unsafe(src):
            continue
        check_doc(ctx, factory(h), res, trans)


def unsafe(src):
    # the strict variant refuses quotes that are not escaped; exercised by C13
    return any(x in src for x in ("</x>",))


def empty_root(ctx, h, src):
    ctx.step(2)
    tmpl, got = factory(h)().parse(src)
    expect((tmpl, got), (src, []), "empty resources", source=src)
    expect(factory(h)().compile(tmpl, []), src, "empty resources compiled")


def kinds():
    return [
        lambda i: Comment(" note %d <string name=\"no\">no</string> " % i),
        lambda i: Other(EMPTY[i % len(EMPTY)], "empty"),
        lambda i: Other(OTHER[i % len(OTHER)]),
        lambda i: Other(IGNORED[i % len(IGNORED)], "ignored", True),
        lambda i: Str("s%d" % i, TEXTS[i]),
        lambda i: Str("s", TEXTS[i + 2], product="p%d" % i),
        lambda i: Arr("a%d" % i, ["x", "", "y"]),
        lambda i: Arr("s%d" % i, [None, TEXTS[i + 4]], start="", sep=" ",
                      end=""),
        lambda i: Plu("s%d" % i, [("one", TEXTS[i]), ("other", "y")]),
    ]


def shards(tier):
    n = len(kinds())
    out = [("seq", i, j) for i in range(n) for j in range(n)]
    out += [("frame", i, 0) for i in range(len(HEADS))]
    out += [("text", i, 0) for i in range(len(TEXTS))]
    out += [("name", i, 0) for i in range(len(NAMES))]
    out += [("plural", i, 0) for i in range(len(PLAYOUT))]
    return out


def run(ctx, res, trans=TRANS):
    src = res.source()
    if ctx.state(src):
        ctx.case(trace, ctx, res, trans, replay={"source": src})
    return src


def explore(ctx, shard):
    fam, i, j = shard
    ks = kinds()
    if fam == "seq":
        seqs = [(i, j)] + [(i, j, k) for k in range(len(ks))]
        if i == j:
            seqs.append((i,))
        if ctx.thorough:
            seqs += [(i, j, k, l) for k in range(len(ks))
                     for l in range(len(ks))]
        for seq in seqs:
            for off in range(8 if ctx.thorough or len(seq) < 3 else 2):
                kids = [ks[k]((n + off) % 8) for n, k in enumerate(seq)]
                for gap, last in (GAPS if len(seq) < 3 else GAPS[:2]):
                    src = run(ctx, Res(kids, gap=gap, last=last))
        ctx.sample(src)
    elif fam == "frame":
        for root, foot, (gap, last) in itertools.product(ROOTS, FOOTS, GAPS):
            for kids in ([], [Str("s", "x")], [Comment("c")],
                         [Comment("\n multi\n"), Str("s", "x", "p"),
                          Plu("s", [("other", "y")])],
                         [Arr("a", ["1", None, "2", " "])]):
                run(ctx, Res(kids, HEADS[i], root, gap, last, foot))
            single = root[:-1] + "/>"
            ctx.state(HEADS[i] + single + foot)
            for h in handlers():
                ctx.case(empty_root, ctx, h, HEADS[i] + single + foot)
    elif fam == "text":
        t = TEXTS[i]
        for u in TEXTS:
            run(ctx, Res([Str("s", t), Arr("a", [u, t]), Plu(
                "p", [("one", t), ("other", u)]), Str("z", u)]))
            run(ctx, Res([Str("s", t, extra=" tools:x='%s'" % "&gt;"),
                          Str("s", u, product="q", q="'")], gap=""))
            run(ctx, Res([Arr("a", [t, u, t], start="", sep="", end="",
                              item_attr=" x=\"y\"")]))
    elif fam == "name":
        for n2 in NAMES:
            for p1, p2 in itertools.product([None, "", "p", "p:q"],
                                            repeat=2):
                if NAMES[i] != n2:
                    run(ctx, Res([Str(NAMES[i], "1", p1, order="pn"),
                                  Str(n2, "2", p2)]))
                    run(ctx, Res([Arr(NAMES[i], ["1", "2"], p1),
                                  Plu(n2, [("other", "2")], p2)]))
                elif (p1 or "") != (p2 or ""):
                    run(ctx, Res([Str(n2, "1", p1), Str(n2, "2", p2)]))
                # the same name in different kinds of resources
                run(ctx, Res([Str(NAMES[i], "1", p1),
                              Plu(NAMES[i], [("one", "2"), ("other", "3")],
                                  p1)]))
                run(ctx, Res([Plu(NAMES[i], [("one", "2"), ("other", "3")],
                                  p1), Str(NAMES[i], "1", p1)]))
    elif fam == "plural":
        start, end = PLAYOUT[i]
        for r in range(6):
            for rules in itertools.combinations(RULES[:5], r):
                full = list(rules) + ["other"]
                for rot in range(len(full)):
                    order = full[rot:] + full[:rot]
                    for sep in (start, "\n", ""):
                        forms = [(x, TEXTS[n % len(TEXTS)])
                                 for n, x in enumerate(order)]
                        run(ctx, Res([Plu("p", forms, None, start, end, sep),
                                      Str("q", "x")]))
