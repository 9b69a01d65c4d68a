"""C39 - the place that a parse error names moves with the error."""
from __future__ import unicode_literals

import itertools
import re

from vp import corpus
from vp.checks import c38
from vp.core import Violation, expect

NUMBER = re.compile(r"((?i:line|char|position)\W{0,3})(\d+)")
FIRST = 5           # the number of the first unit of a damaged document
PARTS = 6


def bounds(tier):
    return {"formats": len(FORMATS), "documents": "one unit" if tier == "quick"
            else "one unit and two units", "damages": "every prefix, suffix, "
            "deletion, doubling, exchange and token insertion or replacement "
            "at every place", "inserted": "one and three empty lines at the "
            "start and after the head, every unit and every pair of units "
            "after the head, also with texts of several lines"}


ASSUMPTIONS = ("places are the numbers after 'line', 'char' and 'position' in "
               "messages",
               "other valid entries in front may turn the error into another "
               "one, empty lines not")
FORMATS = [f for f in corpus.FORMATS if f.name not in
           ("plaintext", "markdown", "markdown_v2", "jsx", "beta_android")]


def error(f, src):
    from openformats.exceptions import ParseError
    try:
        f.parse(src)
    except ParseError as e:
        # (PyPy writes random bytes for a character that is not ASCII)
        return re.sub("(?s)(Unexpected '|Invalid .escape: ).*?(?=line [0-9])", r"\1",
                      str(e))
    return None


def moved(text, line, char, src, pos):
    """The message with places from pos on moved."""
    first = src[:pos].count("\n") + 1

    def sub(m):
        n, is_line = int(m.group(2)), m.group(1)[0] in "lL"
        if n >= (first if is_line else pos):
            n += line if is_line else char
        return m.group(1) + "%d" % n
    return NUMBER.sub(sub, text)


def units(f, kinds, start):
    return f.sep.join(u.replace("%n", str(n)).replace("%m", str(n + 1))
                      for n, u in enumerate(kinds, start))


def tall(f, text):
    """The entries with texts that span several lines."""
    if f.name in ("srt", "vtt"):
        return re.sub(r"(\w[^\n]*)(\n*)$", r"\1\n\1\2", text)
    return re.sub(r">([^<>\n]*\w[^<>\n]*)</(string|item|source|target)>",
                  r">\1\n\n z\n\n</\2>", text)


def trace(ctx, f, src, pos, ins, strict, before):
    ctx.step(2)
    after = error(f, src[:pos] + ins + src[pos:])
    ctx.outcome(after)
    want = moved(before, ins.count("\n"), len(ins), src, pos)
    if not strict:
        if after is None or NUMBER.sub(r"\1", after) != NUMBER.sub(
                r"\1", before):
            return
    expect(after, want, "the place of the error", format=f.name, source=src,
           inserted=ins, at=pos, before=before)


def damaged(f, tier):
    tokens = c38.TOKENS[c38.KIND[f.name]]
    pool = [u for u, _ in f.units]
    docs = [(u,) for u in pool] if f.need < 2 else [(u, u) for u in pool]
    if tier == "thorough":
        docs += list(itertools.product(pool[:3], repeat=2))
    seen = set()
    for d in docs:
        src = f.head + units(f, d, FIRST) + f.tail
        for s in c38.damaged(src, tokens):
            if s.startswith(f.head) and s not in seen:
                seen.add(s)
                yield s


def shards(tier):
    return [(i, p) for p in range(PARTS) for i in range(len(FORMATS))]


def explore(ctx, shard):
    f = FORMATS[shard[0]]
    head = len(f.head)
    pool = [u for u, _ in f.units]
    fill = [units(f, (u,), 1) + (f.sep or "") for u in pool]
    pairs = itertools.product(pool, repeat=2)
    if not ctx.thorough:
        pairs = [(u, v) for u, v in pairs if u == pool[0] or v == pool[0]]
    fill += [units(f, p, 1) + (f.sep or "") for p in pairs]
    extra = [t for t in map(lambda u: tall(f, u), fill) if t not in fill]
    fill = fill[:3] + extra + fill[3:]
    # (messages of the YAML and PO readers also name where a mapping starts)
    if c38.KIND[f.name] in ("yaml", "po"):
        fill = []
    ctx.scope(f.name)
    for i, src in enumerate(damaged(f, ctx.tier)):
        if i % PARTS != shard[1]:
            continue
        try:
            before = error(f, src)
        except Exception:
            continue        # C38
        if before is None:
            continue
        ctx.distinct()
        if not NUMBER.search(before):
            continue
        for pos in {0, head}:
            for ins in ("\n", "\n\n\n"):
                ctx.case(trace, ctx, f, src, pos, ins, True, before,
                         replay=(f.name, src, pos, ins))
        for ins in fill if ctx.thorough or i % 3 == 0 else fill[:3 + len(extra)]:
            ctx.case(trace, ctx, f, src, head, ins, False, before,
                     replay=(f.name, src, head, ins))
