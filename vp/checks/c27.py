"""C27 - SRT: extraction, round trip, removal, error positions."""
from __future__ import unicode_literals

import itertools

from vp.docs import S
from vp.subs import File, check_file, check_refused

TIMES = [("00:01:28,797 --> 00:01:30,297", "00:01:28.797,00:01:30.297"),
         ("0:1:2 -->  01:02:03,5", "00:01:02.000,01:02:03.500"),
         ("00:01:45,105\t--> 00:01:47,94 X1:40 X2:600 Y1:20", "00:01:45.105,"
          "00:01:47.940"),
         (" 100:00:00,000 --> 123:59:59,999  ", "100:00:00.000,123:59:59.999"),
         ("00:00:00,000 --> 00:00:00,001 a b c", "00:00:00.000,00:00:00.001")]
TEXTS = ["x", "two\nlines", "  padded\n - <i>x</i>", "12", "1\n00:00:01,000 "
         "--> 00:00:02,000\nnot a cue", "\u03b1\U0001F600 {\\an8}", " \n x",
         "a --> b", "0123456789abcdef0123456789abcdef_tr", "%d\t\\n &lt;"]
SEPS = ["\n\n", "\n\n\n", "\n\n\n\n", "\n\n  ", "\n \n\n", "  \n\n"]
HEADS = ["", "\n", "\n\n", " \n\n", "  "]
TAILS = ["", "\n", "\n\n", " \n\n \n", "\n\n\n"]
STEPS = [1, 1, 5, 100]
# (section, line of the error counted from the section's first line)
BAD = [
    ("1\n00:00:01,000 --> 00:00:02,000", 0), ("1\n", 0), ("alone", 0),
    ("x\n00:00:01,000 --> 00:00:02,000\ntext", 0),
    ("0\n00:00:01,000 --> 00:00:02,000\ntext", 0),
    ("-3\n00:00:01,000 --> 00:00:02,000\ntext", 0),
    ("1.5\n00:00:01,000 --> 00:00:02,000\ntext", 0),
    ("%(dup)s\n00:00:01,000 --> 00:00:02,000\ntext", 0),
    ("%(n)s\n00:00:01,000 -> 00:00:02,000\ntext", 1),
    ("%(n)s\n00:00:01,000 -->\ntext", 1), ("%(n)s\ntext\ntext", 1),
    ("%(n)s\n00:00:01,000 --> 00:00\ntext", 1),
    ("%(n)s\n00:x:01,000 --> 00:00:02,000\ntext", 1),
    ("%(n)s\n00:00:01,000 --> 00:00:02,0,0\ntext", 1),
    ("%(n)s\n00:00:01,000 --> 00:00:02,x\ntext", 1),
    ("%(n)s\n00:00:01.000 --> 00:00:02.000\ntext", 1),
    ("%(n)s\n00:00:01:00 --> 00:00:02,000\ntext", 1),
]


def H():
    from openformats.formats.srt import SrtHandler
    return SrtHandler()


def bounds(tier):
    return {"texts": TEXTS, "times": [t for t, _ in TIMES],
            "separators": SEPS, "heads": HEADS, "tails": TAILS,
            "malformed sections": len(BAD),
            "cues": "every sequence of up to %d texts, every subset missing"
                    % (4 if tier == "thorough" else 3)}


def build(texts, times, sep, head="", tail="\n", pad=""):
    parts, n = [head], 0
    for i, t in enumerate(texts):
        n += STEPS[i % len(STEPS)]
        line, occ = TIMES[times[i] if isinstance(times, (list, tuple))
                          else (times + i) % len(TIMES)]
        if i:
            parts.append(sep[i % len(sep)])
        parts.append(("%s%s\n%s\n" % (n, pad, line), t,
                      S("%d" % n, t, occurrences=occ)))
    return File(parts + [tail]), n


def shards(tier):
    n = len(TEXTS)
    return ([("seq", i, j) for i in range(n) for j in range(n)] +
            [("lay", i, 0) for i in range(len(SEPS))] +
            [("bad", i, 0) for i in range(len(BAD))] + [("none", 0, 0)])


def explore(ctx, shard):
    fam, i, j = shard

    def run(f, *key):
        if ctx.state(key):
            ctx.case(check_file, ctx, H, f, replay=key)
    if fam == "seq":
        for r in range(0, 3 if ctx.thorough else 2):
            for rest in itertools.product(range(len(TEXTS)), repeat=r):
                seq = (i, j) + rest
                t = sum(seq)
                f, _ = build([TEXTS[k] for k in seq], t % 5,
                             [SEPS[(t + k) % len(SEPS)] for k in range(4)])
                run(f, "seq", seq)
        if i == j:
            for tm in range(len(TIMES)):
                for head in HEADS:
                    for tail in TAILS:
                        for pad in ("", " "):
                            f, _ = build([TEXTS[i]], tm, SEPS, head, tail,
                                         pad)
                            run(f, "one", i, tm, head, tail, pad)
    elif fam == "lay":
        for s2 in SEPS:
            for head in HEADS:
                for tail in TAILS:
                    for tm in itertools.product(range(len(TIMES)), repeat=3):
                        f, _ = build(["a", "b\nc", "d"], tm,
                                     ["", SEPS[i], s2], head, tail)
                        run(f, "lay", i, s2, head, tail, tm)
    elif fam == "bad":
        bad, off = BAD[i]
        for before in range(3):
            for head in HEADS:
                for sep in SEPS:
                    for after in (0, 1):
                        f, n = build(TEXTS[:before], 0, [sep] * 4, head, "")
                        if "dup" in bad and not before:
                            continue
                        src = f.fill([s.raw for s in f.strings])
                        if before:
                            src += sep
                        line = src.count("\n") + 1 + off
                        src += bad % {"n": n + 1, "dup": n}
                        if after:
                            src += "\n\n%d\n%s\ntext" % (n + 2, TIMES[0][0])
                        if ctx.state((src,)):
                            ctx.case(check_refused, ctx, H, src, line,
                                     replay={"source": src})
    else:
        for src in ("", "\n", " ", "\n\n\n", " \n\n "):
            f = File([src])
            ctx.state((src,))
            ctx.case(check_file, ctx, H, f, replay={"source": src})
    ctx.sample([fam, i, j])
