"""C08 - Chrome extension messages (both generations)."""
from __future__ import unicode_literals

import itertools
import json

from vp import icu, jsonmodel as J
from vp.core import Violation, expect
from vp.docs import Doc, S, check_doc, dos, translated

LAYS = ["tight", "space", "lines", "ragged", "wide"]
KEYS = ["a", "b.c", '\\"', "\\\\x", "", "message", "\u03b1 ,}"]
MSGS = ["v", 'q\\" }, ,', "\\n$PH$", "{n, select, a {b}}"]


def bounds(tier):
    return {
        "entries": "1-3 top-level entries out of %d kinds (message alone, "
                   "with description before/after, placeholders before/after,"
                   " plural messages, blank message, non-string message, no "
                   "message, non-object entries)" % len(kinds()),
        "keys": KEYS, "messages": MSGS, "layouts": LAYS,
        "newlines": ["UNIX", "DOS"],
        "translations": "all / each single string / all plural rule sets",
        "v3": "every subset of the strings kept at compile time",
    }


def ph():
    return J.Obj([("ph", J.Obj([("content", J.Str("$1")),
                                ("example", J.Str("a, }"))]))])


def msg(n):
    return J.Str(MSGS[n % len(MSGS)])


def plural(n):
    v = icu.variants()[n % len(icu.variants())]
    s = J.Str(v.raw)
    s.icu = v
    return s


def kinds():
    d = J.Str("note \\u0041, {")
    return [
        lambda n: J.Obj([("message", msg(n))]),
        lambda n: J.Obj([("message", msg(n)), ("description", J.Str("d"))]),
        lambda n: J.Obj([("description", d), ("message", msg(n))]),
        lambda n: J.Obj([("placeholders", ph()), ("message", msg(n)),
                         ("description", J.Str("d%d" % n))]),
        lambda n: J.Obj([("message", msg(n)), ("placeholders", ph())]),
        lambda n: J.Obj([("message", plural(n))]),
        lambda n: J.Obj([("description", J.Str("p")), ("message",
                                                       plural(n))]),
        lambda n: J.Obj([("description", J.Str("only"))]),
        lambda n: J.Obj([("message", J.Str("")), ("description",
                                                  J.Str("e"))]),
        lambda n: J.Obj([("message", J.Lit("null"))]),
        lambda n: J.Obj([]),
        lambda n: J.Str("top"),
        lambda n: J.Lit("12"),
        lambda n: J.Arr([J.Str("x"), J.Obj([("k", J.Str("y"))])]),
    ]


def child(node, name):
    return next((v for k, v in node.items if k == name), None)


def build_v3(root, layout):
    strings = []

    def on_str(path, n):
        if len(path) != 2 or path[1] != ("k", "message"):
            return [n.raw]
        payload = child(root, path[0][1])
        d = child(payload, "description")
        comment = d.raw if d is not None and d.kind == "str" else ""
        return place(strings, n, path[0][1], comment)
    return Doc(J.emit(root, layout, on_str), strings)


def place(strings, n, key, comment):
    i = len(strings)
    v = getattr(n, "icu", None)
    if v is None:
        strings.append(S(key, n.raw, developer_comment=comment))
        seg = [i]
    else:
        strings.append(S(key, v.region, v.value, icu.render, pluralized=True,
                         developer_comment=comment))
        seg = [v.prefix, i, v.suffix]
    strings[-1].node = n
    return seg


def build_v2(root, layout):
    strings = []
    decoded = json.loads(J.text(root, "tight"))

    def on_str(path, n):
        key = J.kv_key(path)
        if not n.raw.strip() or not key.endswith("message"):
            return [n.raw]
        comment = ""
        first = path[0][1] if path[0][0] == "k" else None
        # names that need escaping have no comment (documented limitation)
        if first is not None and "." not in first and "\\" not in first:
            top = decoded[first]
            if isinstance(top, dict):
                comment = top.get("description", "")
        return place(strings, n, key, comment)
    return Doc(J.emit(root, layout, on_str), strings)


def t_all(i, s):
    if s.pluralized:
        return {1: "x%d" % i, 2: "two", 5: "{cnt} \\\\1, }"}
    return 'T%d \\", }' % i


def t_one(k):
    def t(i, s):
        return ({5: "o"} if s.pluralized else "new") if i == k else s.value
    return t


def t_rules(i, s):
    if s.pluralized:
        return {r: "r%d" % r for r in range(6)}
    return s.value


def tr(doc):
    return [t_all, t_rules] + [t_one(k) for k in range(len(doc.strings))]


def new3():
    from openformats.formats.json import ChromeI18nHandlerV3
    return ChromeI18nHandlerV3()


def new2():
    from openformats.formats.json import ChromeI18nHandler
    return ChromeI18nHandler()


def trace2(ctx, root, layout):
    doc = build_v2(root, layout)
    tmpl, got = check_doc(ctx, new2, doc, tr(doc))
    # editing the stringset never changes a Chrome template
    for r in range(len(got) + 1):
        ctx.step()
        expect(new2().sync_template(tmpl, got[:r]), tmpl,
               "template changed by a sync", template=tmpl)


def trace3(ctx, root, layout, conv):
    doc = build_v3(root, layout)
    tmpl, got = check_doc(ctx, new3, doc, tr(doc))
    tmpl = conv(tmpl)
    n = len(got)
    for r in range(n):
        for keep in itertools.combinations(range(n), r):
            vals = [t_all(i, doc.strings[i]) for i in keep]
            objs = [translated(got, i, v) for i, v in zip(keep, vals)]
            ctx.step()
            out = new3().compile(tmpl, iter(objs))
            try:
                val = J.decode(out)
            except ValueError as e:
                raise Violation("compiled file is not valid JSON",
                                compiled=out, template=tmpl, error=str(e),
                                kept=keep)
            texts = dict(zip(keep, vals))
            expect(val, expected3(root, doc, texts),
                   "compiled file with some strings left out",
                   template=tmpl, compiled=out, kept=keep)
            ctx.outcome(out)


def expected3(root, doc, texts):
    by_node = {id(s.node): i for i, s in enumerate(doc.strings)}

    def conv(n):
        i = by_node.get(id(n))
        if i is not None:
            t = texts[i]
            v = getattr(n, "icu", None)
            if v is not None:
                t = v.prefix + icu.render(t) + v.suffix
            return json.loads('"%s"' % t)
        if n.kind == "obj":
            return ["obj"] + [[json.loads('"%s"' % k), conv(c)]
                              for k, c in n.items]
        if n.kind == "arr":
            return ["arr"] + [conv(c) for c in n.items]
        return J.value(n)
    out = []
    for k, c in root.items:
        if c.kind == "obj":
            m = child(c, "message")
            if m is not None and id(m) in by_node and \
                    by_node[id(m)] not in texts:
                continue
        out.append((k, c))
    return conv(J.Obj(out))


def roots(thorough):
    ks = kinds()
    for i, k in enumerate(ks):
        for j in range(len(KEYS)):
            yield J.Obj([(KEYS[j], k(j))])
    for n, c in enumerate(itertools.product(ks, repeat=2)):
        yield J.Obj([(KEYS[(n + i) % len(KEYS)], k(n + i))
                     for i, k in enumerate(c)])
    for n, c in enumerate(itertools.product(ks, repeat=3)):
        if thorough or all(ks.index(k) in (0, 2, 4, 5, 7, 8, 9, 11, 13)
                           for k in c):
            yield J.Obj([(KEYS[(n + i) % len(KEYS)], k(n + i))
                         for i, k in enumerate(c)])
    if thorough:
        sub = [ks[i] for i in (0, 3, 5, 7, 11)]
        for n, c in enumerate(itertools.product(sub, repeat=4)):
            yield J.Obj([(KEYS[(n + i) % len(KEYS)], k(n + i))
                         for i, k in enumerate(c)])


def nested_roots():
    ks = kinds()
    for n, k in enumerate(ks):
        x = k(n)
        yield J.Obj([("g", J.Obj([("a", x), ("description", J.Str("gd"))])),
                     ("h", ks[1](n))])
        yield J.Obj([("g", J.Obj([("message", J.Obj([("k", x)]))]))])
        yield J.Obj([("xmessage", x), ("message", J.Str("m"))])
        yield J.Arr([x, ks[1](n)])


NP = 64


def shards(tier):
    return list(range(NP))


def explore(ctx, part):
    for i, root in enumerate(roots(ctx.thorough)):
        if i % NP != part:
            continue
        for layout in LAYS:
            ctx.state((root.key(), layout))
            ctx.case(trace3, ctx, root, layout, lambda t: t,
                     replay={"v3": J.text(root, layout)})
            ctx.case(trace2, ctx, root, layout,
                     replay={"v2": J.text(root, layout)})
        ctx.case(trace3, ctx, root, "lines", dos,
                 replay={"v3": dos(J.text(root, "lines"))})
    ctx.sample(J.text(root, "space"))
    for i, root in enumerate(nested_roots()):
        if i % NP == part:
            for layout in LAYS:
                ctx.state((root.key(), layout))
                ctx.case(trace2, ctx, root, layout,
                         replay={"v2": J.text(root, layout)})
