"""C13 - Android escaping keeps the text and never leaves a bare quote."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.checks.c11 import factory

OPEN = {"<b>": "b", "<a h=\"v'\">": "a", "<x y='z'>": "x", "<foo>": "foo"}
CLOSE = {"</b>": "b", "</a>": "a", "</x>": "x", "</foo>": "foo"}
INLINE = ("a", "b")
BASE_TOKENS = ["q", "\"", "'", "@", "@string/n", " ", "<", "&", ">", "\u03b1",
               "<br/>"]
TOKENS = BASE_TOKENS + sorted(OPEN) + sorted(CLOSE)
FULL_TOKENS = TOKENS + ["?", "\n", "\t", "&amp;", "&lt;"]
PREFIXES = ["@string", "@strings", "@string/", "@strin", "@@string/n",
            "@+id/", "@String/n", " @string/n", "@string /", "@ string/n",
            "@android:string/n", "@*", "@null", "?attr/n", "?@string/n"]
CDATA = ["<![CDATA[<i> & @ ? ]>]]>", "<![CDATA['\"]]>"]


def bounds(tier):
    return {"standard handler": "all sequences of up to %d of the tokens"
                                % depth(tier), "tokens": TOKENS,
            "strict handler": "all sequences of up to %d of the tokens"
                              % (depth(tier) - 1), "its tokens": FULL_TOKENS,
            "starts": PREFIXES, "cdata": CDATA}


def depth(tier):
    return 6 if tier == "thorough" else 5


def quotes(t):
    return t.replace("\"", "\\\"").replace("'", "\\'")


def special(t):
    return quotes(t.replace("&", "&amp;").replace(">", "&gt;")
                  .replace("\n", "\\n").replace("\t", "\\t")
                  .replace("@", "\\@").replace("?", "\\?")
                  .replace("<", "&lt;"))


def structure(tokens):
    """None when the tags do not match; else for every token the stack of
    open tags around it (markup tokens include themselves)."""
    stack, out = [], []
    for i, t in enumerate(tokens):
        if t in OPEN:
            stack.append((OPEN[t], i))
            out.append(tuple(stack))
        elif t in CLOSE:
            if not stack or stack[-1][0] != CLOSE[t]:
                return None
            out.append(tuple(stack))
            stack.pop()
        elif t == "<br/>":
            out.append(tuple(stack) + (("br", i),))
        elif t == "<":
            return None
        else:
            out.append(tuple(stack))
    return out if not stack else None


def is_tag(t):
    return t in OPEN or t in CLOSE or t == "<br/>"


def base_model(tokens):
    st = structure(tokens)
    out = ""
    for i, t in enumerate(tokens):
        keep = (st is not None and is_tag(t) and
                st[i][-1][0] in INLINE + ("br",))
        out += t if keep else quotes(t)
    if out.startswith("@") and not out.startswith("@string/"):
        out = "\\" + out
    return out


def full_model(tokens):
    st = structure(tokens)
    out = ""
    for i, t in enumerate(tokens):
        top = st[i][0][0] if st is not None and st[i] else None
        out += t if top in INLINE + ("br",) else special(t)
    return out


def base_case(ctx, tokens):
    t = "".join(tokens)
    A = factory("android.AndroidHandler")
    ctx.step(2)
    e = A.escape(t)
    if not ("<" in tokens and "<br/>" in tokens):
        # (there a stray "<" and the tag can form another tag)
        expect(e, base_model(tokens), "escaped text", text=t)
    expect(A.unescape(e), t, "text after escaping and unescaping", text=t,
           escaped=e)
    ctx.outcome(e)


def decode(e):
    """What Android shows for escaped text without tags."""
    e = e.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
    out, i = "", 0
    while i < len(e):
        if e[i] == "\\":
            i += 1
            out += {"n": "\n", "t": "\t"}.get(e[i], e[i])
        else:
            out += e[i]
        i += 1
    return out


def full_case(ctx, tokens):
    t = "".join(tokens)
    U = factory("android_unescaped.AndroidUnescapedHandler")
    ctx.step(3)
    e = U.escape(t)
    st = structure(tokens)
    # a stray "<" next to markup can form other tags than the tokens say
    odd = st is None and (("<" in tokens and any(map(is_tag, tokens)))
                          or "</x>" in tokens)
    if st is not None:
        expect(e, full_model(tokens), "escaped text", text=t)
    elif not odd:
        expect(e, special(t), "escaped text", text=t)
    inline = odd or st is not None and any(
        s and s[0][0] in INLINE + ("br",) for s in st)
    if not inline:
        expect(decode(e), t, "text shown on the device", text=t, escaped=e)
    if "&amp;" not in tokens and "&lt;" not in tokens or not inline:
        expect(U.unescape(e), t, "text after escaping and unescaping",
               text=t, escaped=e)
    ctx.outcome(e)
    if t.strip() and not inline:
        src = "<resources><string name=\"k\">%s</string></resources>" % e
        _, got = U().parse(src)
        expect([g.string for g in got], [e], "escaped text in a file",
               source=src)


def cdata_case(ctx, parts):
    U = factory("android_unescaped.AndroidUnescapedHandler")
    t = "".join(parts)
    ctx.step(2)
    e = U.escape(t)
    want = "".join(quotes(p) if p in CDATA else special(p) for p in parts)
    expect(e, want, "escaped text with CDATA", text=t)
    expect(U.unescape(e), t, "text after escaping and unescaping", text=t)
    ctx.outcome(e)


def shards(tier):
    out = [("base", i, j) for i in range(len(TOKENS))
           for j in range(len(TOKENS))]
    out += [("full", i, j) for i in range(len(FULL_TOKENS))
            for j in range(len(FULL_TOKENS))]
    return out + [("cdata", 0, 0), ("starts", 0, 0)]


def explore(ctx, shard):
    fam, i, j = shard
    if fam == "cdata":
        alpha = CDATA + ["q", "\"", "@", "?", "&", "\n", " ", "@string/x"]
        for r in range(1, 6 if ctx.thorough else 5):
            for parts in itertools.product(alpha, repeat=r):
                # neighbouring text is processed as one piece
                if any(p in CDATA for p in parts):
                    ctx.state(("cdata", parts))
                    ctx.case(cdata_case, ctx, parts, replay="".join(parts))
        return
    if fam == "starts":
        for p in PREFIXES:
            for r in range(4 if ctx.thorough else 3):
                for rest in itertools.product(FULL_TOKENS, repeat=r):
                    seq = (p,) + rest
                    ctx.state(seq)
                    if not set(seq) - set(TOKENS + PREFIXES):
                        ctx.case(base_case, ctx, seq,
                                 replay={"tokens": seq, "handler": "base"})
                    ctx.case(full_case, ctx, seq,
                             replay={"tokens": seq, "handler": "full"})
        return
    toks = TOKENS if fam == "base" else FULL_TOKENS
    fn = base_case if fam == "base" else full_case
    d = depth(ctx.tier) - (0 if fam == "base" else 1)
    for r in range(0, d - 1):
        for rest in itertools.product(toks, repeat=r):
            seq = (toks[i], toks[j]) + rest
            ctx.distinct()
            ctx.case(fn, ctx, seq, replay={"tokens": seq, "handler": fam})
            if r == 0 and i == j:
                ctx.distinct()
                ctx.case(fn, ctx, seq[:1], replay={"tokens": seq[:1]})
    ctx.sample("".join(seq))
