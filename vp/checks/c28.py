"""C28 - VTT: extraction, round trip, removal, error positions."""
from __future__ import unicode_literals

import itertools

from vp.docs import S
from vp.subs import File, check_file, check_refused

TIMES = [("00:01:28.797 --> 00:01:%02d.297", "00:01:28.797,00:01:%02d.297"),
         ("01:28.797 -->  01:%02d.5", "01:28.797,01:%02d.500"),
         ("100:00:00.000\t--> 100:00:%02d.999 line:0 position:20% align:start",
          "100:00:00.000,100:00:%02d.999"),
         ("0:1:2 --> 1:2:%02d", "00:01:02.000,01:02:%02d.000")]
IDS = ["", "1\n", "some id\n", "two\nlines\n", "00:01\n"]
TEXTS = ["x", "two\nlines", "  padded\n- <c.a>x</c>", "\u03b1\U0001F600 &lt;",
         "12", "- a -> b", "0123456789abcdef0123456789abcdef_tr", "NOTE x",
         "{\\1}\t%d", " \n x"]
BLOCKS = ["NOTE a comment\nof two lines", "STYLE\n::cue { color: red }",
          "REGION\nid:fred\nwidth:40%", "NOTE", None]
EMPTY = ["00:02:00.000 --> 00:02:0%d.000", "7\n00:02:00.000 --> 00:02:0%d.000"]
SEPS = ["\n\n", "\n\n\n", "\n\n\n\n", "\n \n\n", "  \n\n"]
HEADS = ["WEBVTT", "WEBVTT - a title", "WEBVTT\nKind: captions\nLanguage: en",
         "WEBVTT\n\nNOTE x"]
TAILS = ["", "\n", "\n\n", " \n\n \n"]
# (section, line of the error counted from the section's first line, exact)
BAD = [
    ("00:01.000 ---> 00:02.000\ntext", 0, 1),
    ("1\n00:01.000 ---> 00:02.000\ntext", 1, 1),
    ("1\n2\n3\n00:01.000 -->\ntext", 3, 1), ("00:01.000 -->\ntext", 0, 1),
    ("--> 00:01.000\ntext", 0, 1), ("00:x.000 --> 00:02.000\ntext", 0, 1),
    ("a\nb\n00:01.000 --> 00:x2.000\ntext", 2, 1),
    ("00:00:01,000 --> 00:00:02,000\ntext", 0, 1),
    ("a\n00:00:01.0.0 --> 00:00:02.000\ntext", 1, 1),
    # the repository's own tests pin another line number for these
    ("28.797 --> 30.297\ntext", 0, 0), ("1:2:3:4 --> 30.297\ntext", 0, 0),
]


def H():
    from openformats.formats.vtt import VttHandler
    return VttHandler()


def bounds(tier):
    return {"texts": TEXTS, "times": [t for t, _ in TIMES], "ids": IDS,
            "blocks": BLOCKS[:-1], "separators": SEPS, "heads": HEADS,
            "tails": TAILS, "malformed sections": len(BAD),
            "cues": "every sequence of up to %d texts, every subset missing"
                    % (4 if tier == "thorough" else 3)}


def cue(i, text, time=0, ident=0):
    line, occ = TIMES[time % len(TIMES)]
    line = line.replace("%02d", "%02d" % (i + 30))
    occ = occ.replace("%02d", "%02d" % (i + 30))
    return ("%s%s\n" % (IDS[ident % len(IDS)], line), text,
            S(line, text, occurrences=occ))


def build(items, seps, head="WEBVTT", tail="\n"):
    parts = [head]
    for i, it in enumerate(items):
        parts.append(seps[i % len(seps)])
        parts.append(it)
    return File(parts + [tail])


def shards(tier):
    n = len(TEXTS)
    return ([("seq", i, j) for i in range(n) for j in range(n)] +
            [("lay", i, j) for i in range(len(SEPS))
             for j in range(len(TIMES))] +
            [("bad", i, 0) for i in range(len(BAD))] + [("none", 0, 0)])


def explore(ctx, shard):
    fam, i, j = shard

    def run(f, *key):
        if ctx.state(key):
            ctx.case(check_file, ctx, H, f, replay=key)
    if fam == "seq":
        for r in range(0, 3 if ctx.thorough else 2):
            for rest in itertools.product(range(len(TEXTS)), repeat=r):
                seq = (i, j) + rest
                t = sum(seq)
                items = []
                for n, k in enumerate(seq):
                    items.append(cue(n, TEXTS[k], t + n, i + n))
                    if (t + n) % 3 == 0:
                        items.append(BLOCKS[(i + n) % 4])
                    elif (t + n) % 7 == 1:
                        items.append(EMPTY[t % 2] % n)
                run(build(items, [SEPS[(t + k) % len(SEPS)]
                                  for k in range(4)], HEADS[j % 4]),
                    "seq", seq)
        if i == j:
            for tm in range(len(TIMES)):
                for ident in range(len(IDS)):
                    for head in HEADS:
                        for tail in TAILS:
                            run(build([cue(0, TEXTS[i], tm, ident)], SEPS,
                                      head, tail),
                                "one", i, tm, ident, head, tail)
    elif fam == "lay":
        pieces = BLOCKS[:-1] + [EMPTY[0] % 1, EMPTY[1] % 2, cue(
            8, "q\nr", j, 3), cue(9, "s", j + 1, 0)]
        for r in range(0, 4 if ctx.thorough else 3):
            for ps in itertools.permutations(range(len(pieces)), r):
                for ident in range(len(IDS)):
                    for at in range(r + 1):
                        items = [pieces[p] for p in ps]
                        items.insert(at, cue(0, "text", j, ident))
                        run(build(items, [SEPS[i], SEPS[(i + j) % 5]],
                                  HEADS[ident % 4], TAILS[r % 4]),
                            "lay", i, j, ps, ident, at)
    elif fam == "bad":
        bad, off, exact = BAD[i]
        for before in range(3):
            for head in HEADS:
                for sep in SEPS:
                    for after in (0, 1):
                        f = build([cue(n, TEXTS[n], n, n)
                                   for n in range(before)], [sep], head, "")
                        src = f.fill([s.raw for s in f.strings]) + sep
                        line = src.count("\n") + 1 + off
                        src += bad
                        if after:
                            src += "\n\n00:05.000 --> 00:06.000\ntext"
                        if ctx.state((src,)):
                            ctx.case(check_refused, ctx, H, src, line, exact,
                                     replay={"source": src})
    else:
        good = "00:05.000 --> 00:06.000\ntext"
        for src in ["", "\n", "WEBVTT", "WEBVTT\n\nNOTE x\n", "WEBVTT\n\n" +
                    EMPTY[0] % 1, good, "\n\nWEBVTT\n\n" + good,
                    " WEBVTT\n\n" + good, "webvtt\n\n" + good,
                    "NOTE x\n\n" + good]:
            if ctx.state((src,)):
                ctx.case(check_refused, ctx, H, src, 0, False,
                         replay={"source": src})
    ctx.sample([fam, i, j])
