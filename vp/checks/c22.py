"""C22 - Markdown: every block is extracted once, in place."""
from __future__ import unicode_literals

import itertools

from vp import md
from vp.docs import check_doc

MAX_A = {"quick": 3, "thorough": 4}
HEADERS = [
    [],
    ["---\ntitle: ", ("a",), "\n---\n"],
    ["---\na: ", ("a",), "\n# a\ndescription: ", ("b c",), "\n---\n\n"],
    ["---\na:\n  - a\nt: |\n", ("  a\n  b c",), "\nu: ", ("a: b c",),
     "\n---\n"],
    ["---\nt: >\n", ("    a\n  a: a",), "\nu: 12\nv:\nw: ",
     ("[a, b]",), "\n---\n"],
    ["---\nt: \"", ("a",), "\"\n---\n"],
    ["---\na:\n  t: |\n", ("    a\n    b c",), "\n  u: ", ("a",),
     "\n  v: >\n", ("    a",), "\nw: [\n", ("  a, b\n  ]",), "\nx: ",
     ("a",), "\n---\n"],
]
# plain quotes belong to the text of the simple header reader
HEADERS[5] = ["---\nt: ", ('"a"',), "\nb: ", ("'b'",), "\n---\n"]

TRANSLATIONS = [
    lambda i, s: "T%d" % i,
    lambda i, s: "\u03b1 \\1 {} %%s\n> %d" % i,
    lambda i, s: "",
]


def H():
    from openformats.formats.github_markdown import GithubMarkdownHandler
    return GithubMarkdownHandler()


def bounds(tier):
    return {"any text": {"tokens": md.TOKENS,
                         "sequences up to": MAX_A[tier]},
            "blocks": {"kinds": md.NAMES, "texts": md.TEXTS,
                       "headers": len(HEADERS),
                       "documents": "all sequences of up to 2 blocks with "
                       "every header and text; of 3 blocks out of " +
                       ("all kinds" if tier == "thorough"
                        else "the core kinds")},
            "newlines": ["UNIX", "DOS"]}


def shards(tier):
    out = [("any", i, j) for i in range(len(md.TOKENS))
           for j in range(-1, len(md.TOKENS))]
    out += [("blocks", n) for n in md.NAMES]
    return out


def trace_any(ctx, src):
    md.soup(ctx, H, src)


def trace_blocks(ctx, names, texts, header, end, translations):
    doc = md.build([md.instance(n, t) for n, t in zip(names, texts)], header,
                   end=end)
    lines = any("\n" in s for s in doc.segs if not isinstance(s, int))
    check_doc(ctx, H, doc, translations, newline="both" if lines else "unix")


def explore(ctx, shard):
    if shard[0] == "any":
        i, j = shard[1:]
        first = [md.TOKENS[i]]
        if j >= 0:
            first.append(md.TOKENS[j])
            rests = [r for n in range(0, MAX_A[ctx.tier] - 1)
                     for r in itertools.product(md.TOKENS, repeat=n)]
        else:
            rests = [()]
        for rest in rests:
            src = "".join(first + list(rest))
            if ctx.state(src):
                ctx.case(trace_any, ctx, src, replay=src)
        ctx.scope("any text")
        return
    first = shard[1]
    for t1 in md.TEXTS:
        for hi, header in enumerate(HEADERS):
            for end in ("\n", ""):
                if not md.legal([first], header):
                    continue
                ctx.distinct()
                ctx.case(trace_blocks, ctx, [first], [t1], header, end,
                         TRANSLATIONS, replay=(first, t1, hi, end))
            for second in md.NAMES:
                if not md.legal([first, second], header):
                    continue
                for t2 in md.TEXTS:
                    ctx.distinct()
                    ctx.case(trace_blocks, ctx, [first, second], [t1, t2],
                             header, "\n", TRANSLATIONS[:1],
                             replay=(first, second, t1, t2, hi))
    kinds = md.NAMES if ctx.thorough else md.CORE
    if first in kinds:
        for rest in itertools.product(kinds, repeat=2):
            names = [first] + list(rest)
            if not md.legal(names):
                continue
            for ts in itertools.product(md.TEXTS[:2], repeat=3):
                ctx.distinct()
                ctx.case(trace_blocks, ctx, names, ts, [], "\n",
                         TRANSLATIONS[:1], replay=(names, ts))
    ctx.scope("blocks")
    ctx.sample([first, md.TEXTS[0]])
