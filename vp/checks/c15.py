"""C15 - the XML reader reports exact positions and raw contents."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.xmlmodel import Com, El, a, emit

TEXTS = ["", "t", " \n ", "a &lt; b", "<![CDATA[<i>]] > </a>]]>", "\u03b1 > \" ' =",
         "<![CDATA[]]>x"]
ATTRS = [
    [], [a("n", "v")], [a("n", "it's", ws="\n  "), a("m:k", "a>b/")],
    [a("n", 'say "x"', q="'"), a("o", "", ws="  ")],
    [a("n", "a = 'b' <", ws="\t")], [a("n", "v", eq=" = ")],
    [a("n", "v", eq="=\n"), a("n2", "w", eq=" =")],
]
COMMENTS = ["", " c ", " <a> </b> ", "- >", " 'x' = \" "]
TAGS = ["a", "ab", "x:g"]
PROPS = ["tag", "position", "attributes", "attrib", "text_position", "text",
         "content_end", "content", "tail_position", "tail", "end", "children"]


def bounds(tier):
    return {"texts": TEXTS, "attributes": len(ATTRS), "comments": COMMENTS,
            "tree": "root with up to %d children, up to 2 grandchildren"
                    % (3 if tier == "thorough" else 2),
            "access orders": "all permutations of 3 (thorough 4) of the %d "
                             "lazily computed properties" % len(PROPS),
            "damage": "deletion of each markup character"}


def build(source, start=0):
    from openformats.utils.xml import NewDumbXml
    return NewDumbXml(source, start)


def read(node, prop):
    if prop == "children":
        return [c.position for c in node]
    return getattr(node, prop)


def want(info, prop):
    if prop == "attrib":
        return {k: v for _, k, _, v in info["attributes"]}
    if prop == "children":
        return [c["position"] for c in info["children"]]
    return info[prop]


def compare(ctx, node, info, source, order=PROPS):
    for p in order:
        ctx.step()
        expect(read(node, p), want(info, p), "%s of <%s>" % (p, info["tag"]),
               source=source, access_order=list(order))
    got = list(node)
    expect(len(got), len(info["children"]), "number of children",
           source=source)
    for c, i in zip(got, info["children"]):
        compare(ctx, c, i, source, order)


def document(ctx, root, lead="", tail="", orders=(PROPS,)):
    text, info = emit(root, len(lead))
    source = lead + text + tail
    info["tail"] = tail.split("<")[0]
    info["end"] = info["tail_position"] + len(info["tail"])
    if not ctx.state(source):
        return source
    for order in orders:
        compare(ctx, build(source, len(lead)), info, source, order)
    # the finders
    node = build(source, len(lead))
    for tags in ((), ("a",), ("a", "!--")):
        flat = []

        def walk(i):
            for c in i["children"]:
                if not tags or c["tag"] in tags:
                    flat.append(c["position"])
                walk(c)
        walk(info)
        expect([c.position for c in node.find_descendants(*tags)], flat,
               "find_descendants", source=source, tags=tags)
        expect([c.position for c in node.find_children(*tags)],
               [c["position"] for c in info["children"]
                if not tags or c["tag"] in tags],
               "find_children", source=source, tags=tags)
    ctx.outcome([info["position"], info["content"]])
    return source


def damaged(ctx, source):
    """Deleting one character of the markup never makes the reader crash with
    anything but its syntax error."""
    from openformats.utils.xml import DumbXmlSyntaxError
    for i in range(len(source)):
        if source[i] not in "<>/\"'=!-[":
            continue
        t = source[:i] + source[i + 1:]
        ctx.step()
        try:
            node = build(t)
            list(node.find_descendants())
            node.content, node.tail, node.attrib
        except DumbXmlSyntaxError:
            ctx.outcome("rejected")
        except Exception as e:
            raise Violation("damaged XML raises %s" % type(e).__name__,
                            source=t)


def leaves():
    for t in TAGS:
        for at in ATTRS[:3]:
            yield El(t, at, None)
    for c in COMMENTS:
        yield Com(c)
    for t in TAGS:
        for x in TEXTS:
            yield El(t, ATTRS[3] if x == "t" else (), [x])


def shards(tier):
    out = [("tag", i) for i in range(len(ATTRS))]
    out += [("two", i) for i in range(len(list(leaves())))]
    out += [("order", i) for i in range(len(PROPS))]
    out += [("deep", i) for i in range(len(TEXTS))]
    return out


def order_docs():
    return [
        El("a", ATTRS[2], ["t ", El("ab", (), None), " u ",
                           El("a", ATTRS[3], ["v", Com(" <a> "), "w"]), "x"]),
        El("a", ATTRS[5], None, slash_ws=" "),
        El("ab", (), [""]),
    ]


def explore(ctx, shard):
    kind, n = shard
    if kind == "tag":
        for ow, cw, sw in itertools.product(["", " ", "\n "], repeat=3):
            for lead, tail in (("", ""), ("<?x?>\n"[:0] + "  ", " tail\n"),
                               ("", "\n<next>")):
                for at in (ATTRS[n], ATTRS[n] + ATTRS[4]):
                    for x in TEXTS:
                        ctx.case(document, ctx, El("a", at, [x], ow, cw),
                                 lead, tail)
                    ctx.case(document, ctx, El("a", at, None, ow, cw, sw),
                             lead, tail)
        ctx.sample(document(ctx, El("a", ATTRS[n], [TEXTS[4]])))
    elif kind == "two":
        first = list(leaves())[n]
        gaps = ["", "t", " \n ", TEXTS[4]]
        for second in leaves():
            for g in itertools.product(gaps, repeat=3):
                ctx.case(document, ctx,
                         El("a", (), [g[0], first, g[1], second, g[2]]))
        if ctx.thorough:
            for second in leaves():
                for third in leaves():
                    for g in (("", "", "", ""), ("x", " ", "\n", "y")):
                        ctx.case(document, ctx,
                                 El("ab", (), [g[0], first, g[1], second,
                                               g[2], third, g[3]]))
        src = emit(El("a", ATTRS[2], ["t", first, El("ab", (), ["u"])]))[0]
        ctx.case(damaged, ctx, src)
        if ctx.thorough:
            for second in leaves():
                ctx.case(damaged, ctx,
                         emit(El("a", ATTRS[3], [first, "t", second]))[0])
    elif kind == "order":
        depth = 4 if ctx.thorough else 3
        for d in order_docs():
            text, info = emit(d)
            info["tail"], info["end"] = " z", len(text) + 2
            for rest in itertools.permutations(
                    [p for p in PROPS if p != PROPS[n]], depth - 1):
                order = (PROPS[n],) + rest
                ctx.state((text, order))
                ctx.case(compare, ctx, build(text + " z<b>"), info,
                         text + " z<b>", order + tuple(PROPS))
    elif kind == "deep":
        for inner in leaves():
            for at in ATTRS:
                ctx.case(document, ctx, El("a", (), [
                    TEXTS[n], El("a", at, [TEXTS[n], inner, "m"]), Com("c"),
                    El("ab", (), [El("a", (), [inner, TEXTS[n]])])]))
