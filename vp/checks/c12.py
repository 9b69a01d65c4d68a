"""C12 - Android: missing translations remove exactly their own elements."""
from __future__ import unicode_literals

import itertools
import re

from vp.android import Arr, Comment, Other, Plu, Res, Str
from vp.checks.c11 import EMPTY, GAPS, IGNORED, OTHER, factory, handlers
from vp.core import expect
from vp.docs import dos, translated

LOCALES = [None, {"code": "el"}, {"code": "pt_BR"}]


ATTRS = ['tools:locale="en"', "tools:locale = 'en'", 'x:locale="en"',
         'locale="en"', 'tools:locales="en"', 'xmlns:tools="en"',
         'atools:locale="en"', 'a="tools:locale=&quot;en"', 'en="en"']


def bounds(tier):
    return {"root attributes": ATTRS, "children": "all sequences of 1-%d of 8 child kinds"
                        % (5 if tier == "thorough" else 4),
            "missing": "every subset of the strings",
            "is_source": [True, False], "language": LOCALES,
            "arrays": "all arrays of up to 4 items, each translated, missing "
                      "or empty", "gaps": GAPS, "handlers": handlers()}


def trace(ctx, res, src, root_locale=False, subsets=None, modes=None):
    for h in handlers():
        ctx.step()
        tmpl, got = factory(h)().parse(src)
        n = len(got)
        expect(n, len(res.strings), "number of strings", source=src)
        vals = [{5: "T%d" % i} if s.pluralized else "T%d" % i
                for i, s in enumerate(res.strings)]
        objs = [translated(got, i, v) for i, v in enumerate(vals)]
        conv = dos if "\r\n" in src else (lambda t: t)
        for mask in subsets or range(2 ** n):
            keep = lambda i: bool(mask >> i & 1)
            some = [o for i, o in enumerate(objs) if keep(i)]
            for is_source, loc in modes or [(True, None), (False, None)]:
                ctx.step()
                kw = {} if loc is None else {"language_info": loc}
                out = factory(h)().compile(tmpl, some, is_source=is_source,
                                           **kw)
                want = conv(res.compiled(vals, keep, not is_source))
                if loc is not None:
                    want = re.sub(r"""(\stools:locale\s*=\s*["'])en""",
                                  lambda m: m.group(1) + loc["code"], want,
                                  count=1)
                expect(out, want, "compiled file", source=src, handler=h,
                       present=[o.key for o in some], is_source=is_source,
                       language=loc)
                ctx.outcome(out)


def kinds():
    return [
        lambda i: Comment(" c%d " % i),
        lambda i: Other(EMPTY[i % len(EMPTY)], "empty"),
        lambda i: Other(OTHER[i % len(OTHER)]),
        lambda i: Other(IGNORED[i % len(IGNORED)], "ignored", True),
        lambda i: Str("s%d" % i, "x<b>y</b>"),
        lambda i: Arr("a%d" % i, ["x", "y"]),
        lambda i: Arr("b%d" % i, ["x", "", "y"], start="", sep=" ", end=""),
        lambda i: Plu("p%d" % i, [("one", "x"), ("other", "y")]),
    ]


def shards(tier):
    n = len(kinds())
    out = [("seq", i, j) for i in range(n) for j in range(n)]
    out += [("array", i, 0) for i in range(5)]
    return out + [("locale", 0, 0)]


def explore(ctx, shard):
    fam, i, j = shard
    ks = kinds()
    if fam == "seq":
        depth = 5 if ctx.thorough else 4
        for r in range(0, depth - 1):
            for rest in itertools.product(range(len(ks)), repeat=r):
                seq = (i, j) + rest
                if r == 0 and i == j:
                    one(ctx, [ks[i](0)], 0)
                if r == 3 and sum(k >= 5 for k in seq) > 3:
                    continue
                off = sum(seq) * 3
                kids = []
                for p, k in enumerate(seq):
                    c = ks[k](p)
                    if isinstance(c, Other):
                        c = ks[k](p + off)
                    kids.append(c)
                one(ctx, kids, off)
        ctx.sample([type(k).__name__ for k in kids])
    elif fam == "array":
        for combo in itertools.product(["t", "", None, "  "], repeat=i):
            for start, sep, end in (("\n    ", "\n    ", "\n  "),
                                    ("", "", ""), (" ", "  ", ""),
                                    ("\n", "\n\n ", "")):
                for after in ([], [Str("z", "q")], [Comment("c"),
                                                    Str("z", "q")]):
                    one(ctx, [Arr("a", list(combo), None, start, sep, end)]
                        + after, 0)
    elif fam == "locale":
        roots = ["<resources%s>" % "".join(
            ("\n  " if n % 2 else " ") + a for n, a in enumerate(attrs))
            for r in range(4 if ctx.thorough else 3)
            for attrs in itertools.permutations(ATTRS, r)]
        for root in roots:
            if root.count("x:locale=") > 1:
                continue
            res = Res([Str("s", "x")], "", root)
            ctx.state(root)
            ctx.case(trace, ctx, res, res.source(), True, None,
                     [(True, None), (False, LOCALES[2])])
        for root in ('<resources tools:locale="en">',
                     '<resources xmlns:tools="t" tools:locale="en" a="b">',
                     "<resources x='tools:locale=' tools:locale=\"en\">",
                     "<resources>"):
            for kids in ([], [Str("s", "x")], [Comment("c"), Str("s", "x"),
                                               Str("t", "y")]):
                for head in ("", "<?xml version=\"1.0\"?>\n"):
                    res = Res(kids, head, root)
                    for src in (res.source(), dos(res.source())):
                        ctx.state(src)
                        ctx.case(trace, ctx, res, src, True, None,
                                 [(a, b) for a in (True, False)
                                  for b in LOCALES])


def one(ctx, kids, off):
    gap, last = GAPS[off % 4]
    res = Res(kids, gap=gap, last=last)
    src = res.source()
    if not ctx.state(src):
        return
    ctx.case(trace, ctx, res, src, replay={"source": src})
    if len(kids) < 3 and "\n" in src:
        ctx.case(trace, ctx, res, dos(src), replay={"source": dos(src)})
