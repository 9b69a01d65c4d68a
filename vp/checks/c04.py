"""C04 - JSON string escaping against the standard decoder."""
from __future__ import unicode_literals

import itertools
import json

from vp.core import Violation, expect

PLAIN = ['"', "\\", "/", "b", "n", "u", "\b", "\f", "\n", "\r", "\t", "0",
         "\x01", "\x1f", "\u03b1", "\U0001f600", "\ud83d", "\ude00", " "]
RAW = ['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041",
       "\\u00E9", "\\u2028", "\\ud83d\\ude00", "\\ud83d", "\\ude00",
       "\\uD800", "a", "n", "u0041", "\u03b1", "\U0001f600", "'", "/"]
JUNK = ["\\", '"', "u", "\\u", "00", "d83d", "x", "\\x", "n", "\u03b1"]


def bounds(tier):
    n = 4 if tier == "quick" else 5
    return {"plain text": "all strings of <=%d of %d tokens" % (n, len(PLAIN)),
            "escaped text": "all strings of <=%d of %d tokens" % (n, len(RAW)),
            "arbitrary text": "all strings of <=%d of %d tokens" % (
                n + 1, len(JUNK))}


def shards(tier):
    for fam, toks in (("plain", PLAIN), ("raw", RAW), ("junk", JUNK)):
        for i in range(len(toks)):
            yield fam, i
    yield "handlers", 0


def plain(ctx, s):
    from openformats.utils.json import escape, unescape
    ctx.step(2)
    e = escape(s)
    try:
        back = json.loads('"%s"' % e)
    except ValueError as exc:
        raise Violation("escaped text is not a valid JSON string", text=s,
                        escaped=e, error=str(exc))
    # adjacent escaped surrogates cannot appear: escape() leaves them raw
    expect(back, s, "decoding the escaped text", escaped=e)
    expect(unescape(e), s, "unescape(escape(text))", escaped=e)
    ctx.outcome(e)


def raw(ctx, r):
    from openformats.utils.json import escape, unescape
    ctx.step(2)
    want = json.loads('"%s"' % r)
    u = unescape(r)
    expect(u, want, "unescape(valid JSON string)", raw=r)
    expect(unescape(escape(u)), u, "unescape(escape(unescape(x)))", raw=r)
    ctx.outcome(u)


def junk(ctx, r):
    from openformats.utils.json import unescape
    ctx.step()
    u = unescape(r)
    if not isinstance(u, str):
        raise Violation("unescape returned no text", raw=r, got=u)
    try:
        want = json.loads('"%s"' % r)
    except ValueError:
        want = None
    if want is not None:
        expect(u, want, "unescape(valid JSON string)", raw=r)
    ctx.outcome(u)


def handlers(ctx, name, s):
    from openformats.formats import json as fj
    h = getattr(fj, name)
    ctx.step(2)
    e = h.escape(s)
    expect(json.loads('"%s"' % e), s, "decoding the escaped text", escaped=e)
    expect(h.unescape(e), s, "unescape(escape(text))", escaped=e)
    h = h()
    expect(h.unescape(h.escape(s)), s, "unescape(escape(text))", escaped=e)


def explore(ctx, shard):
    fam, i = shard
    n = 5 if ctx.thorough else 4
    if fam == "handlers":
        for name in ("JsonHandler", "StructuredJsonHandler", "ArbHandler",
                     "ChromeI18nHandler", "ChromeI18nHandlerV3"):
            for k in range(0, 3):
                for t in itertools.product(PLAIN, repeat=k):
                    s = "".join(t)
                    ctx.state((name, s))
                    ctx.case(handlers, ctx, name, s)
        return
    toks, fn = {"plain": (PLAIN, plain), "raw": (RAW, raw),
                "junk": (JUNK, junk)}[fam]
    if fam == "junk":
        n += 1
    if i == 0:
        ctx.case(fn, ctx, "")
    for k in range(0, n):
        for t in itertools.product(toks, repeat=k):
            s = toks[i] + "".join(t)
            if k < 4:
                ctx.state((fam, s))
            ctx.case(fn, ctx, s)
    ctx.sample({fam: s})
