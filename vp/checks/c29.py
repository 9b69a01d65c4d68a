"""C29 - plain text: one string per line, layout untouched."""
from __future__ import unicode_literals

import itertools

from vp.core import expect
from vp.docs import S, compare_stringset, dos, translated

LINES = ["a", "", " ", "  indented", "trailing \t", "\tboth ", "a a",
         "\u03b1\U0001F600", "\u00a0nbsp\u00a0", "0",
         "cfcd208495d565ef66e7dff9f98764da_tr", "\\1 {} %s", "a\u2028b",
         "\ufeff", "\x0b", "x\ry", "z\r", "\r"]


def H():
    from openformats.formats.plaintext import PlaintextHandler
    return PlaintextHandler()


def bounds(tier):
    return {"lines": LINES, "newlines": ["UNIX", "DOS"],
            "files": "every sequence of up to %d lines" % (
                5 if tier == "thorough" else 4)}


VALUES = [lambda i: "T%d" % i, lambda i: " \\g<0>\t%d " % i, lambda i: "",
          lambda i: "cfcd208495d565ef66e7dff9f98764da_tr"]


def trace(ctx, lines):
    if len(lines) > 1 and lines[0].endswith("\r"):
        return              # that is a file with Windows newlines
    segs, strings = [], []
    for n, l in enumerate(lines):
        if n:
            segs.append("\n")
        text = l.strip()
        if not text:
            segs.append(l)
            continue
        pos = l.index(text)
        segs += [l[:pos], len(strings), l[pos + len(text):]]
        strings.append(S("%d" % len(strings), text))

    def fill(vals):
        return "".join(vals[s] if isinstance(s, int) else s for s in segs)
    for conv in ((lambda t: t), dos):
        if conv is dos and (len(lines) < 2 or
                            any(l.endswith("\r") for l in lines)):
            continue
        src = conv(fill([s.raw for s in strings]))
        ctx.step(2)
        tmpl, got = H().parse(src)
        compare_stringset(got, strings, src)
        expect(tmpl, conv(fill([g.template_replacement for g in got])),
               "template", source=src)
        expect(H().compile(tmpl, iter(got)), src,
               "compiling the unchanged strings", template=tmpl)
        for v in VALUES:
            vals = [v(i) for i in range(len(got))]
            ctx.step()
            out = H().compile(tmpl, [translated(got, i, t)
                                     for i, t in enumerate(vals)])
            expect(out, conv(fill(vals)), "compiling a translation",
                   source=src, template=tmpl)
            ctx.outcome(out)


def shards(tier):
    return [(i, j) for i in range(len(LINES)) for j in range(len(LINES))]


def explore(ctx, shard):
    i, j = shard
    if i == j:
        ctx.distinct()
        ctx.case(trace, ctx, (LINES[i],), replay=(LINES[i],))
    for r in range(0, 4 if ctx.thorough else 3):
        for rest in itertools.product(LINES, repeat=r):
            seq = (LINES[i], LINES[j]) + rest
            ctx.distinct()
            ctx.case(trace, ctx, seq, replay=seq)
    ctx.sample([LINES[i], LINES[j]])
