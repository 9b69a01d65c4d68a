"""C14 - the legacy Android handler: extraction, round trip, removal."""
from __future__ import unicode_literals

import itertools

from vp.android import Arr, Comment, NUM, Other, Plu, RULES, Res, Str
from vp.checks.c11 import GAPS, HEADS, ROOTS, factory
from vp.core import expect
from vp.docs import check_doc, dos, translated

TEXTS = ["x", " padded ", "a <b>c</b> d", "<![CDATA[<i> & ]]]>", "&lt;b&gt;",
         "it\\'s", "line\n    two", "\u03b1\U0001F600", "<xliff:g id=\"n\">%s"
         "</xliff:g>", "say \"hi\" > 'x'"]
NAMES = ["k", "a.b", "\u03b1:x", "it's", "&amp;", "k k"]
OTHER = ["<color name=\"c\">#fff</color>", "<eat-comment/>",
         "<integer name=\"translatable\">1</integer>",
         "<stringer name=\"s\">x</stringer>"]
IGNORED = ["<string name=\"i\" translatable=\"false\">no</string>",
           "<string translatable=\"false\" name=\"i\"><b>no</b></string>",
           "<string-array name=\"i\" translatable=\"false\">\n    "
           "<item>no</item>\n  </string-array>",
           "<plurals name=\"i\" translatable=\"false\"><item "
           "quantity=\"other\">no</item></plurals>"]
PLAYOUT = [("\n    ", "\n  "), ("", ""), ("\n\t", "\n")]


class BetaRes(Res):
    """Removed elements leave their surroundings as they are."""

    def text(self, fill, keep=lambda i: True, drop_ignored=False):
        out = self.head + self.root + (self.gap if self.children
                                       else self.last)
        n = len(self.children)
        for ci in range(n):
            out += self.child(ci, fill, keep) or ""
            out += self.last if ci == n - 1 else self.gap
        return out + "</resources>" + self.foot

    def child(self, ci, fill, keep):
        c = self.children[ci]
        if not isinstance(c, Arr):
            return Res.child(self, ci, fill, keep)
        out, some = c.open + c.start, False
        for k in range(len(c.items)):
            a, b, tail = c.item(k)
            m = self.index[ci, k]
            if keep(m):
                out += a + fill(m) + b
                some = True
            out += tail
        # an array written without any whitespace stays as an empty element
        tight = out == c.open
        return out + "</string-array>" if some or tight else ""


def bounds(tier):
    return {"texts": TEXTS, "names": NAMES, "gaps": GAPS,
            "children": "all sequences of 1-%d of 7 child kinds"
                        % (5 if tier == "thorough" else 4),
            "missing": "every subset of the strings",
            "plural layouts": PLAYOUT, "newlines": "unix and dos"}


def trans(i, s):
    if s.pluralized:
        return {1: "one T", 5: "other <b>T</b>"}
    return "T %d \\1 <i>x</i>" % i


def H():
    return factory("beta_android.BetaAndroidHandler")


def trace(ctx, res, src):
    check_doc(ctx, H(), res, [trans],
              newline="both" if len(res.children) < 3 else "unix")
    tmpl, got = H()().parse(src)
    vals = [trans(i, s) for i, s in enumerate(res.strings)]
    objs = [translated(got, i, v) for i, v in enumerate(vals)]
    if len(objs) > 6:
        return
    for mask in range(2 ** len(objs) - 1):
        keep = lambda i: bool(mask >> i & 1)
        ctx.step()
        out = H()().compile(tmpl, [o for i, o in enumerate(objs) if keep(i)])
        expect(out, res.compiled(vals, keep), "compiled file with missing "
               "translations", source=src,
               present=[o.key for i, o in enumerate(objs) if keep(i)])
        ctx.outcome(out)


def kinds():
    return [
        lambda i: Comment(" note %d <string name=\"no\">no</string> " % i),
        lambda i: Other(OTHER[i % len(OTHER)]),
        lambda i: Other(IGNORED[i % len(IGNORED)], "ignored", True),
        lambda i: Str("s%d" % i, TEXTS[i]),
        lambda i: Str("s", TEXTS[i + 1], product="p%d" % i),
        lambda i: Arr("a%d" % i, ["x", TEXTS[i]], start="\n  "[:i],
                      sep="\n  "[:i], end="\n"[:i],
                      item_attr=" x=\"abcdef\"" if i % 2 else ""),
        lambda i: Plu("p%d" % i, [("one", TEXTS[i]), ("other", "y")], None,
                      *PLAYOUT[i % 3]),
    ]


def shards(tier):
    n = len(kinds())
    out = [("seq", i, j) for i in range(n) for j in range(n)]
    out += [("text", i, 0) for i in range(len(TEXTS))]
    out += [("name", i, 0) for i in range(len(NAMES))]
    out += [("plural", i, 0) for i in range(len(PLAYOUT))]
    return out


def run(ctx, res):
    src = res.source()
    if ctx.state(src):
        ctx.case(trace, ctx, res, src, replay={"source": src})
    return src


def explore(ctx, shard):
    fam, i, j = shard
    ks = kinds()
    if fam == "seq":
        for r in range(0, 4 if ctx.thorough else 3):
            for rest in itertools.product(range(len(ks)), repeat=r):
                seq = (i, j) + rest
                for off in range(3 if r < 2 else 1):
                    kids = [ks[k](n + off + sum(seq) % 2 * (r > 1))
                            for n, k in enumerate(seq)]
                    gap, last = GAPS[(sum(seq) + off) % 4]
                    src = run(ctx, BetaRes(kids, gap=gap, last=last))
        if i == j:
            for off in range(6):
                for gap, last in GAPS:
                    run(ctx, BetaRes([ks[i](off)], gap=gap, last=last))
        ctx.sample(src)
    elif fam == "text":
        t = TEXTS[i]
        for u in TEXTS:
            for h, r in zip(HEADS[:2] * 2, ROOTS):
                run(ctx, BetaRes([Str("s", t), Arr("a", [u, t]), Plu(
                    "p", [("one", t), ("other", u)]), Str("z", u)], h, r))
            run(ctx, BetaRes([Arr("a", [t, u, t], start="", sep="", end="",
                                  item_attr=" x=\"y\"")]))
    elif fam == "name":
        for n2 in NAMES:
            for p1, p2 in itertools.product([None, "p", "p:q"], repeat=2):
                if NAMES[i] != n2:
                    run(ctx, BetaRes([Str(NAMES[i], "1", p1, order="pn"),
                                      Str(n2, "2", p2)]))
                    run(ctx, BetaRes([Arr(NAMES[i], ["1", "2"], p1),
                                      Plu(n2, [("other", "2")], p2)]))
    elif fam == "plural":
        start, end = PLAYOUT[i]
        for r in range(6):
            for rules in itertools.combinations(RULES[:5], r):
                full = list(rules) + ["other"]
                for gap, last in GAPS:
                    run(ctx, BetaRes([
                        Str("o", "x"),
                        Plu("p", [(x, TEXTS[n]) for n, x in enumerate(full)],
                            None, start, end), Str("q", "x")],
                        gap=gap, last=last))
