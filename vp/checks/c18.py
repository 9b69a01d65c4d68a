"""C18 - YAML: extraction, template and round trip of whole documents."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.docs import dos, translated
from vp.yamlmodel import (K, Alias, Emit, Key, Map, Sc, Seq, load, strict)


def block(text, ind="|", style=None):
    """A block scalar: raw(indent) with the text's lines indented."""
    def raw(n):
        out = ind + "\n"
        for line in text.split("\n")[:-1]:
            out += (" " * n + line if line else "") + "\n"
        return out
    return raw


SCALARS = {
    "plain": lambda: Sc("some text", "some text"),
    "plain2": lambda: Sc("it's a \"plain\" http://x:80/y#z -,[]{}? one",
                         "it's a \"plain\" http://x:80/y#z -,[]{}? one",
                         canonical=False),
    "plainlines": lambda: Sc(
        lambda n: "one\n%stwo\n\n%sthree" % (" " * n, " " * n),
        "one two\nthree", canonical=False),
    "nonascii": lambda: Sc("\u03b1\U0001F600 \u0645", "\u03b1\U0001F600 \u0645"),
    "single": lambda: Sc("'it''s: #'", "it's: #", "'"),
    "singlepad": lambda: Sc("'  padded '", "  padded ", "'",
                            canonical=False),
    "double": lambda: Sc("\"q\\\"\\t\\n\\\\ \\u03b1\"", "q\"\t\n\\ \u03b1",
                         "\"", canonical=False),
    "double2": lambda: Sc("\"{}: #\"", "{}: #", "\""),
    "doublelines": lambda: Sc(lambda n: "\"a\n%sb\"" % (" " * n), "a b", "\"",
                              canonical=False),
    "literal": lambda: Sc(block("x\n  y\n\nz\n"), "x\n  y\n\nz\n", "|",
                          block=True),
    "literalstrip": lambda: Sc(block("x: y\n", "|-"), "x: y", "|",
                               block=True, canonical=False),
    "literalhash": lambda: Sc(block("# x\n- y\n"), "# x\n- y\n", "|",
                              block=True),
    "folded": lambda: Sc(block("one\ntwo\n", ">"), "one two\n", ">",
                         block=True, canonical=False),
    "foldedstrip": lambda: Sc(block("one\n", ">-"), "one", ">", block=True),
    "tagged": lambda: Sc("!bar text", "text", "", "bar"),
    "taggedq": lambda: Sc("!b.c:d-E_9 'x'", "x", "'", "b.c:d-E_9"),
    "taggedspaces": lambda: Sc("!bar   \"x\"", "x", "\"", "bar",
                               canonical=False),
    "str": lambda: Sc("!!str 12", "12", "", canonical=False),
    "nonspec": lambda: Sc("! text", "text", "", canonical=False),
    "anchor": lambda: Sc("text", "text", pre="&a1 ", anchor="a1"),
    "anchorq": lambda: Sc("'x y'", "x y", "'", pre="&a2    ", anchor="a2"),
    "anchortag": lambda: Sc("!bar x", "x", "", "bar", pre="&a3 ",
                            anchor="a3"),
    "anchorblock": lambda: Sc(block("x y\nz\n"), "x y\nz\n", "|", block=True,
                              pre="&a4 ", anchor="a4"),
    # not translatable
    "int": lambda: Sc("12", 12, ignored=True),
    "float": lambda: Sc("3.50", 3.5, ignored=True),
    "bool": lambda: Sc("yes", True, ignored=True),
    "null": lambda: Sc("~", None, ignored=True),
    "none": lambda: Sc("", None, ignored=True),
    "emptyq": lambda: Sc("''", "", ignored=True),
    "binary": lambda: Sc("!!binary aGVsbG8=", b"hello", ignored=True),
    "inttag": lambda: Sc("!!int 5", 5, ignored=True),
    "anchornull": lambda: Sc("", None, ignored=True, pre="&a5",
                             anchor="a5"),
    "taggedseq": lambda: Sc("!bar [x, y]", ["x", "y"], tag="bar",
                            ignored=True),
    "taggedmap": lambda: Sc("!bar {x: y}", {"x": "y"}, tag="bar",
                            ignored=True),
}
FLOWABLE = ["plain", "nonascii", "single", "double", "double2", "tagged",
            "taggedq", "anchor", "int", "null", "emptyq", "binary",
            "str"]
KEYS = [K("key"), Key("\"q.r\"", "q<TX_DOT>r", "q.r"), Key("1", "<1>", 1),
        Key("yes", "yes", True), Key("~", "<None>", None),
        Key("'a: b'", "a: b", "a: b"), Key("1.5", "<1<TX_DOT>5>", 1.5),
        K("\u03b1\u03b2 g"), Key("a.b", "a<TX_DOT>b", "a.b"),
        Key("\"[0]\"", "[0]", "[0]"), K("<2>")]
COMMENTS = [[], [" note"], [" one", "two ", " "]]


def sc(name):
    return SCALARS[name]()


def bounds(tier):
    return {"scalars": sorted(SCALARS), "keys": [k.raw for k in KEYS],
            "shapes": sorted(SHAPES),
            "fill": "every pair%s of scalars in every shape" % (
                " and every triple in the shapes of three"
                if tier == "thorough" else ""),
            "layouts": [l[0] for l in LAYOUTS], "newlines": ["UNIX", "DOS"]}


def items(*vals, **kw):
    c = kw.get("comments", ())
    return [(K("k%d" % i), v, c[i] if i < len(c) else [])
            for i, v in enumerate(vals)]


# shapes: functions of two scalars (block context) -> tree
SHAPES = {
    "map": lambda a, b: Map(items(a, b)),
    "seq": lambda a, b: Seq([a, b]),
    "mapmap": lambda a, b: Map([(K("x"), Map(items(a)), []),
                                (K("y"), Map(items(b)), [])]),
    "deep": lambda a, b: Map([(K("x"), Map([(K("y"), Map(items(a, b)), [])]),
                               []), (K("z"), sc("plain"), [])]),
    "mapseq": lambda a, b: Map([(K("x"), Seq([a, b]), []),
                                (K("y"), sc("single"), [])]),
    "seqmap": lambda a, b: Seq([Map(items(a, sc("int"))), Map(items(b))]),
    "mapseqmap": lambda a, b: Map([(K("x"), Seq([Map(items(a, b)), b2(b)]),
                                    [])]),
    "seqseq": lambda a, b: Seq([Seq([a, b]), Seq([sc("plain")])]),
    "comments": lambda a, b: Map(items(a, b, comments=([" first"], [
        " note", "more "])), ),
    "nestedcomments": lambda a, b: Map([
        (K("x"), Map(items(a, b, comments=([], [" c"]))), [" not used"]),
        (K("y"), Seq([(a2(), ["seq"]), sc("plain")]), [])]),
    "mapanchor": lambda a, b: Map([
        (K("x"), Map(items(a, b), anchor="m1", pre="&m1 "), []),
        (K("y"), Alias("m1"), [])]),
    "seqanchor": lambda a, b: Map([
        (K("x"), Seq([a, b], anchor="s1", pre="&s1 "), []),
        (K("y"), Seq([Alias("s1"), sc("plain")]), [])]),
    "merge": lambda a, b: Map([
        (K("x"), Map(items(a, b), anchor="g1", pre="&g1 "), []),
        (K("y"), Map([(K("<<"), Alias("g1"), []),
                      (K("k1"), sc("double2"), [])]), [])]),
    "anchors": lambda a, b: Map(items(
        Sc("text", "text", pre="&a9 ", anchor="a9"), a, Alias("a9"), b,
        Alias("a9"))),
}
FLOWS = {
    "flowmap": lambda a, b: Map([(K("x"), Map(items(a, b), flow=True), []),
                                 (K("y"), sc("plain"), [])]),
    "flowseq": lambda a, b: Map([(K("x"), Seq([a, b], flow=True), [])]),
    "flowseqseq": lambda a, b: Map([(K("x"), Seq([
        Seq([a], flow=True), Map(items(b), flow=True)], flow=True), [])]),
    "flowinseq": lambda a, b: Seq([Seq([a, b], flow=True),
                                   Map(items(a2(), b2(b)), flow=True)]),
    "flowroot": lambda a, b: Map(items(a, b), flow=True),
}


def a2():
    return sc("double2")


def b2(b):
    return sc("plain")


# name, step, sstep, dash, head, foot
LAYOUTS = [
    ("2", 2, 2, "- ", "", "\n"),
    ("4", 4, 4, "- ", "---\n", "\n"),
    ("seq0", 2, 0, "- ", "# head\n\n", ""),
    ("4seq0wide", 4, 0, "-   ", "%YAML 1.1\n---\n# c\n", "\n...\n"),
]


def H():
    from openformats.formats.yaml import YamlHandler
    return YamlHandler()


def check_stringset(got, em, src, comments=True):
    want = em.strings
    if len(got) != len(want):
        raise Violation("stringset has %d strings, expected %d"
                        % (len(got), len(want)), source=src,
                        got=[(g.key, g.string) for g in got],
                        want=[(w["key"], w["value"]) for w in want])
    for i, (g, w) in enumerate(zip(got, want)):
        expect(g.key, w["key"], "key", source=src)
        expect(g.string, w["value"], "text", source=src, key=w["key"])
        expect(g.context, w["tag"], "tag", source=src, key=w["key"])
        expect(g.flags, w["style"], "style", source=src, key=w["key"])
        expect(g.order, i, "order", source=src)
        if comments and w["comment"] is not None and not any(
                x["sc"].post for x in want):
            expect(g.developer_comment, w["comment"], "developer comment",
                   source=src, key=w["key"])


def in_order(text, lits, what, **kw):
    """The literal parts stand in the text in order, the first and the last
    one at its ends."""
    if not text.startswith(lits[0]) or not text.endswith(lits[-1].lstrip(
            "\n")):
        raise Violation(what + ": text around the strings", got=text, want=lits, **kw)
    p = 0
    for l in lits[:-1]:
        q = text.find(l, p)
        if q < 0:
            raise Violation(what + ": text between the strings", got=text,
                            want=lits, missing=l, **kw)
        p = q + len(l)


def semantics(text, want, what, **kw):
    try:
        got = load(text)
    except Exception as e:
        raise Violation(what + ": output is not valid YAML", got=text,
                        error=str(e), **kw)
    if strict(got) != strict(want):
        raise Violation(what + ": meaning of the output", got=text,
                        loaded=got, want=want, **kw)


def trace(ctx, em, comments=True):
    values = [s["value"] for s in em.strings]
    base = em.source()
    for conv in ((lambda t: t), dos)[:1 + ("\n" in base)]:
        src = conv(base)
        # the generator itself: its idea of the meaning is the standard one
        if conv is not dos:
            semantics(src, em.meaning(values), "generator")
        ctx.step()
        tmpl, got = H().parse(src)
        check_stringset(got, em, src, comments and conv is not dos)
        want = conv(em.fill(lambda i: got[i].template_replacement + (
            "")))
        expect(tmpl, want, "template", source=src)
        ctx.step()
        out = H().compile(tmpl, iter(got))
        if all(s["sc"].canonical for s in em.strings) and conv is not dos \
                and not em.odd:
            expect(out, src, "compiling the unchanged strings",
                   template=tmpl)
        semantics(out, em.meaning(values), "unchanged strings", source=src)
        ctx.outcome(out)
        for fn in TRANS:
            vals = [fn(i) for i in range(len(got))]
            objs = [translated(got, i, v) for i, v in enumerate(vals)]
            ctx.step()
            out = H().compile(tmpl, iter(objs))
            semantics(out, em.meaning(vals), "translations", source=src,
                      translations=vals)
            in_order(out, [conv(l) for l in em.literals()], "translations",
                     source=src)
            ctx.outcome(out)


TRANS = [lambda i: "T%d" % i, lambda i: "\u03b1: %d #'\"" % i,
         lambda i: "l%d\n\nm\n" % i]


def run(ctx, tree, lay, flow=False):
    name, step, sstep, dash, head, foot = lay
    try:
        em = Emit(tree, step, sstep, dash, head, foot)
    except ValueError:
        return None
    em.odd = step != 2 or sstep != 2
    if "#" in head and em.strings:
        em.strings[0]["comment"] = None
    src = em.source()
    if ctx.state(src):
        ctx.case(trace, ctx, em, replay={"source": src})
    return src


def shards(tier):
    out = [("pair", s, a) for s in sorted(SHAPES) for a in sorted(SCALARS)]
    out += [("flow", s, a) for s in sorted(FLOWS) for a in FLOWABLE]
    out += [("keys", i, None) for i in range(len(KEYS))]
    return out


def explore(ctx, shard):
    fam, s, a = shard
    src = None
    if fam == "pair":
        for b in sorted(SCALARS):
            if b == a and a.startswith("anchor"):
                continue
            for lay in LAYOUTS:
                src = run(ctx, SHAPES[s](sc(a), sc(b)), lay)
    elif fam == "flow":
        for b in FLOWABLE:
            if b == a and a.startswith("anchor"):
                continue
            for lay in LAYOUTS:
                src = run(ctx, FLOWS[s](sc(a), sc(b)), lay, True)
    else:
        k = KEYS[s]
        for k2 in KEYS:
            for a in ("plain", "double2", "literal", "int"):
                for lay in LAYOUTS:
                    run(ctx, Map([(k, Map([(k2, sc(a), [])]), []),
                                  (K("z"), sc("plain"), [])]), lay)
                    run(ctx, Map([(k, Map([(k2, Seq([sc(a)]), [])]), [])]),
                        lay)
                    run(ctx, Map([(k, Seq([Map([(k2, sc(a), [])])]), [])]),
                        lay)
                    if k2.value != k.value:
                        src = run(ctx, Map([(k, sc(a), []),
                                            (k2, sc("single"), [])]), lay)
    if src:
        ctx.sample(src)
