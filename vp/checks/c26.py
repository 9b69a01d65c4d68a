"""C26 - PO: keys and message ids determine each other."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.docs import translated
from vp.po import HEADS, Entry, document, read

TOKENS = ["a", ":", "\\", " ", "\n"]


def words(n, empty=False):
    if empty:
        yield ""
    for r in range(1, n + 1):
        for t in itertools.product(TOKENS, repeat=r):
            yield "".join(t)


def size(tier):
    return (5, 4) if tier == "thorough" else (4, 3)


def bounds(tier):
    n, p = size(tier)
    return {"tokens": TOKENS, "message ids": "every text of up to %d" % n,
            "plural ids": "none, and every text of up to %d" % p}


def H():
    from openformats.formats.po import PoHandler
    return PoHandler()


def trace(ctx, ids):
    """One file with all the given (msgid, plural) pairs."""
    es = [Entry(m, p, {0: "x", 1: "y"} if p else "z") for m, p in ids]
    ctx.step()
    # as one file: would be refused if two keys were the same
    _, objs = H().parse(document(HEADS["meta"][0], [e.text() for e in es]))
    expect([o.key for o in objs], [e.key for e in es], "keys", ids=ids)
    empty, _ = H().parse(HEADS["meta"][0])
    h = H()
    ctx.step(2)
    tmpl = h.sync_template(empty, objs)
    out = h.compile(tmpl, [translated(objs, i, o.string)
                           for i, o in enumerate(objs)])
    back = [(f["msgid"], f.get("msgid_plural", "")) for _, f in read(out)[1:]]
    for got, want, o in zip(back, ids, objs):
        if got != want:
            raise Violation("the message ids are not restored from the key",
                            key=o.key, got=got, want=want)
    expect(len(back), len(ids), "number of entries", ids=ids)
    ctx.outcome(out)


def shards(tier):
    return list(range(40))


def explore(ctx, shard):
    n, p = size(ctx.tier)
    plurals = list(words(p, True))
    for i, m in enumerate(words(n)):
        if i % 40 != shard:
            continue
        ctx.distinct(len(plurals))
        ctx.case(trace, ctx, [(m, x) for x in plurals],
                 replay={"msgid": m})
    ctx.sample(m)
