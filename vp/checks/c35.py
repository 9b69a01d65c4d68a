"""C35 - every string has an identity of its own, the same key twice does not
pass."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.docs import translated

# (written, read): keys of JSON as written between quotes
JKEYS = ["", "a", "b", ".", "a.b", "a.", ".a", "a..0..", "..0..", "0",
         "\\\\", "\\\\.", "a\\\\", "\\u002e", "\\\"", " ", "a ", "\u00e9",
         "e\u0301", "[0]", ":", "a:", "A", "a\\nb", "string", "\\/", "a\\\\.b"]
JSMALL = ["", "a", ".", "a.b", "\\\\", "a\\\\", "..0..", "0", "[0]"]

# keys of YAML as written: what is read (kind and value)
YKEYS = [("a", "a"), ("\"a\"", "a"), ("'a'", "a"), ("b", "b"), ("1", 1),
         ("\"1\"", "1"), ("1.5", 1.5), ("'1.5'", "1.5"), ("'a.b'", "a.b"),
         ("a.b", "a.b"), ("a.", "a."), (".a", ".a"), ("''", ""), ("\"\"", ""),
         ("'[0]'", "[0]"), ("'[1]'", "[1]"), ("a.[0]", "a.[0]"), ("~x", "~x"),
         ("\"a\\tb\"", "a\tb"), ("'a:'", "a:"), ("\u00e9", "\u00e9"),
         ("\"\\xe9\"", "\u00e9"), ("'e\u0301'", "e\u0301"), ("<b>", "<b>"),
         ("'.'", "."), ("A", "A"), ("'#'", "#"), ("2", 2), ("'..'", ".."),
         ("0x1", 1), ("one", "one"), ("on", "on"), ("'a\\'", "a\\"),
         ("'a\\.b'", "a\\.b"), ("\"a \"", "a "), ("? a\n", "a")]
YSMALL = [0, 4, 5, 8, 9, 12, 14, 24]


class Refused(Exception):
    pass


def check(ctx, new, build, n, fresh, replay_doc=None, kwargs=None):
    """build(values) -> text of the document with n texts.

    fresh: True when all identities differ, False when one is repeated, None
    when the format may decide."""
    from openformats.exceptions import ParseError
    src = build(["v%dx" % i for i in range(n)])
    ctx.step()
    try:
        template, strings = new().parse(src, **(kwargs or {}))
    except ParseError as e:
        ctx.outcome(str(e)[:60])
        if fresh:
            raise Violation("keys that differ were refused", source=src,
                            error=str(e))
        return
    if fresh is False:
        raise Violation("the same key twice was accepted", source=src,
                        keys=[(s.key, s.context) for s in strings])
    ctx.outcome(tuple(s.key for s in strings))
    hashes = [s.string_hash for s in strings]
    if len(set(hashes)) != len(hashes):
        raise Violation("strings share their identity", source=src,
                        keys=[(s.key, s.context) for s in strings])
    expect(len(strings), n, "number of strings", source=src)
    for s in strings:
        expect(template.count(s.template_replacement), 1,
               "placeholders of a string in the template", source=src,
               key=s.key)
    # each translation is asked for by identity, as it is stored
    ctx.step(2)
    for which in [range(n)] + [[i] for i in range(n)]:
        stored = {h: "w%dy" % i for i, h in enumerate(hashes) if i in which}
        trans = [translated(strings, i, stored[s.string_hash])
                 if s.string_hash in stored else s
                 for i, s in enumerate(strings)]
        out = new().compile(template, trans)
        expect(out, build(["w%dy" % i if i in which else "v%dx" % i
                           for i in range(n)]),
               "translations by key", source=src)
        if n == 1:
            break


# -- JSON -----------------------------------------------------------------------

def tree(paths, merge):
    """Members of a mapping: [(key, child)], child None for a text."""
    root = []
    for path in paths:
        level = root
        for i, elem in enumerate(path):
            last = i == len(path) - 1
            found = [c for k, c in level if k == elem and
                     type(k) is type(elem)]
            if found and (merge or i) and not last and found[-1] is not None:
                level = found[-1]
                continue
            child = None if last else []
            level.append((elem, child))
            level = child
    return root


def sane(node):
    """Lists and mappings don't mix, list items come in order."""
    kinds = {isinstance(k, int) for k, _ in node}
    if len(kinds) > 1:
        return False
    if kinds == {True}:
        items = [k for k, _ in node]
        if items != sorted(set(items)):
            return False
    return all(sane(c) for _, c in node if c is not None)


def repeated(node):
    keys = [k for k, _ in node]
    return len(set(keys)) != len(keys) or any(
        repeated(c) for _, c in node if c is not None)


def json_text(node, values, leaf):
    if node and isinstance(node[0][0], int):
        parts, have = [], dict(node)
        for i in range(max(have) + 1):
            if i not in have:
                parts.append("null")
            elif have[i] is None:
                parts.append(leaf % next(values))
            else:
                parts.append(json_text(have[i], values, leaf))
        return "[" + ", ".join(parts) + "]"
    return "{" + ", ".join(
        "\"%s\": %s" % (k, leaf % next(values) if c is None else
                        json_text(c, values, leaf))
        for k, c in node) + "}"


JSON = {
    "json": ("JsonHandler", "\"%s\"", "%s"),
    "structured": ("StructuredJsonHandler", "{\"string\": \"%s\"}", "%s"),
    "chrome": ("ChromeI18nHandler", "{\"message\": \"%s\"}", "%s"),
    "arb": ("ArbHandler", "\"%s\"", "%s"),
}


def json_handler(name):
    from openformats.formats import json as m
    return getattr(m, JSON[name][0])()


def json_case(ctx, name, paths, merge):
    root = tree(paths, merge)
    if not sane(root):
        return
    ctx.distinct()
    ctx.case(json_trace, ctx, name, paths, merge, replay=(name, paths, merge))


def json_trace(ctx, name, paths, merge):
    root = tree(paths, merge)
    leaf = JSON[name][1]

    def build(values):
        return json_text(root, iter(values), leaf)
    check(ctx, lambda: json_handler(name), build, len(paths),
          not repeated(root))


def json_docs(ctx, part, parts):
    big = [(k,) for k in JKEYS] + [(0,), (1,)]
    small = JSMALL + [0, 1]
    two = big + [(a, b) for a in small for b in small]
    if ctx.thorough:
        two = big + [(a, b) for a in JKEYS + [0, 1] for b in JKEYS + [0, 1]]
    for i, (p, q) in enumerate(itertools.product(two, repeat=2)):
        if i % parts == part:
            json_case(ctx, "json", (p, q), True)
            if p[0] == q[0] and p != q:
                json_case(ctx, "json", (p, q), False)
    tiny = [(k,) for k in ["", "a", ".", "a.b", "..0.."]] + [
        (a, b) for a in ["", "a", "\\\\", 0] for b in ["", "b", ".", 0, 1]] + [
        ("a", 0, 0), ("a", 0, "b"), ("", "", ""), ("a", "b", "")]
    for i, ps in enumerate(itertools.product(tiny, repeat=3)):
        if i % parts == part:
            json_case(ctx, "json", ps, True)
            if ctx.thorough:
                json_case(ctx, "json", ps, False)
    for i, ps in enumerate(itertools.chain(
            itertools.product(JKEYS, repeat=2),
            itertools.product(JSMALL, repeat=3))):
        if i % parts == part:
            for name in ("structured", "chrome", "arb"):
                json_case(ctx, name, tuple((p,) for p in ps), True)
    # structured files nest like the others
    nest = [(a, b) for a in JSMALL for b in JSMALL]
    for i, ps in enumerate(itertools.product(nest, repeat=2)):
        if i % parts == part:
            json_case(ctx, "structured", ps, True)
    # the same key again with values of every kind
    kinds = ["\"%s\"", "{\"x\": \"%s\"}", "[\"%s\"]", "{\"y\": [\"%s\"]}",
             "{}", "[]", "1", "null", "true", "\"\"", "\"{n, plural, one {%s} "
             "other {b}}\"", "[[]]", "{\"z\": {\"x\": \"%s\"}}"]
    for i, (a, b) in enumerate(itertools.product(kinds, repeat=2)):
        if i % parts == part:
            for between in ("", "\"q\": \"r\", "):
                for wrap in ("%s", "{\"o\": %s}", "[%s]", "{\"p\": [\"t\", "
                             "%s]}"):
                    text = wrap % ("{\"a\": %s, %s\"a\": %s}" % (
                        a.replace("%s", "1x"), between, b.replace("%s", "2")))
                    ctx.distinct()
                    ctx.case(refused, ctx, "json", text, replay=text)


def refused(ctx, name, text):
    from openformats.exceptions import ParseError
    ctx.step()
    try:
        _, strings = HANDLERS[name]().parse(text)
    except ParseError as e:
        ctx.outcome(str(e)[:60])
        return
    raise Violation("the same key twice was accepted", source=text,
                    keys=[(s.key, s.context) for s in strings])


# -- YAML -----------------------------------------------------------------------

def yaml_text(node, values, style, pad):
    """A collection, on lines of its own."""
    out = ""
    if node and isinstance(node[0][0], int) and node[0][0] < 0:
        have = {-1 - k: c for k, c in node}
        for i in range(max(have) + 1):
            if i not in have:
                out += pad + "- ~\n"
            elif have[i] is None:
                out += pad + "- " + next(values) + "\n"
            else:
                out += pad + "-\n" + yaml_text(have[i], values, style,
                                               pad + "  ")
        return out
    for k, c in node:
        key = YKEYS[k][0]
        if key.startswith("?"):
            key = "? a\n" + pad
        if c is None:
            out += pad + key + ": " + next(values) + "\n"
        elif style == "flow":
            out += pad + key + ": " + yaml_flow(c, values) + "\n"
        else:
            out += pad + key + ":\n" + yaml_text(c, values, style, pad + "  ")
    return out


def yaml_flow(node, values):
    if node and node[0][0] < 0:
        have = {-1 - k: c for k, c in node}
        return "[" + ", ".join(
            "~" if i not in have else next(values) if have[i] is None else
            yaml_flow(have[i], values) for i in range(max(have) + 1)) + "]"
    return "{" + ", ".join("%s: %s" % (
        YKEYS[k][0], next(values) if c is None else yaml_flow(c, values))
        for k, c in node) + "}"


def yaml_sane(node):
    kinds = {k < 0 for k, _ in node}
    if len(kinds) > 1:
        return False
    if kinds == {True}:
        items = [-k for k, _ in node]
        if items != sorted(set(items)):
            return False
    return all(yaml_sane(c) for _, c in node if c is not None)


def ident(k):
    v = YKEYS[k][1]
    return (type(v).__name__, v)


def yaml_repeated(node):
    if node and node[0][0] < 0:
        return any(yaml_repeated(c) for _, c in node if c is not None)
    keys = [ident(k) for k, _ in node]
    return len(set(keys)) != len(keys) or any(
        yaml_repeated(c) for _, c in node if c is not None)


def yaml_handler():
    from openformats.formats.yaml import YamlHandler
    return YamlHandler()


def i18n_handler():
    from openformats.formats.yaml import I18nYamlHandler
    h = I18nYamlHandler()
    if hasattr(h, "set_plural_rules"):
        h.set_plural_rules([1, 5])
    return h


def yaml_case(ctx, paths, merge, style):
    root = tree(paths, merge)
    if not yaml_sane(root):
        return
    if style == "flow" and any("? a" in YKEYS[k][0] for p in paths for k in p
                               if k >= 0):
        return
    ctx.distinct()
    ctx.case(yaml_trace, ctx, paths, merge, style,
             replay=("yaml", paths, merge, style))


def yaml_trace(ctx, paths, merge, style):
    root = tree(paths, merge)
    for lang in (False, True):
        def build(values):
            body = yaml_text(root, iter(values), style, "  " if lang else "")
            return "en:\n" + body if lang else body
        if lang and root and root[0][0] < 0:
            return
        check(ctx, i18n_handler if lang else yaml_handler, build, len(paths),
              not yaml_repeated(root))


def yaml_docs(ctx, part, parts):
    every = list(range(len(YKEYS)))
    big = [(k,) for k in every] + [(-1,), (-2,)]
    small = YSMALL + [-1, -2]
    two = big + [(a, b) for a in small for b in small]
    if ctx.thorough:
        two = big + [(a, b) for a in every + [-1, -2] for b in small]
    for i, (p, q) in enumerate(itertools.product(two, repeat=2)):
        if i % parts == part:
            for style in ("block", "flow"):
                yaml_case(ctx, (p, q), True, style)
                if p[0] == q[0] and p != q:
                    yaml_case(ctx, (p, q), False, style)
    tiny = [(0,), (8,), (12,), (5,)] + [
        (a, b) for a in (0, 12, 4) for b in (3, 12, 14, -1)] + [
        (12, 12, 0), (0, -1, -1), (0, -1, 12)]
    for i, ps in enumerate(itertools.product(tiny, repeat=3)):
        if i % parts == part:
            for style in ("block", "flow"):
                yaml_case(ctx, ps, True, style)


# -- Android --------------------------------------------------------------------

def android_entry(e, values):
    kind, name, product = e
    attrs = "name=\"%s\"" % name
    if product is not None:
        attrs += " product=\"%s\"" % product
    if kind == "string":
        return "<string %s>%s</string>" % (attrs, next(values))
    if kind == "plurals":
        return ("<plurals %s>\n<item quantity=\"one\">1</item>\n"
                "<item quantity=\"other\">%s</item>\n</plurals>" % (
                    attrs, next(values)))
    return "<string-array %s>%s</string-array>" % (attrs, "".join(
        "<item>%s</item>" % next(values) for _ in range(int(kind[-1]))))


def android_handler(beta):
    if beta:
        from openformats.formats.beta_android import BetaAndroidHandler as H
    else:
        from openformats.formats.android import AndroidHandler as H
    h = H()
    if hasattr(h, "set_plural_rules"):
        h.set_plural_rules([1, 5])
    return h


def size(e):
    return int(e[0][-1]) if e[0].startswith("array") else 1


def android_case(ctx, entries, beta, signature=None):
    ctx.distinct()
    ctx.case(android_trace, ctx, entries, beta, signature=signature,
             replay=("beta" if beta else "android", entries))


def android_trace(ctx, entries, beta):
    def build(values):
        it = iter(values)
        return "<resources>\n%s\n</resources>\n" % "\n".join(
            android_entry(e, it) for e in entries)
    ids = [("array" if e[0].startswith("array") else e[0], e[1], e[2] or "")
           for e in entries]
    n = sum(size(e) for e in entries)
    # plural translations are dicts
    plural = []
    for e in entries:
        plural += [e[0] == "plurals"] * size(e)
    from openformats.exceptions import ParseError
    src = build(["v%dx" % i for i in range(n)])
    new = android_handler
    fresh = len(set(ids)) == len(ids)
    ctx.step()
    try:
        template, strings = new(beta).parse(src)
    except ParseError as e:
        ctx.outcome(str(e)[:60])
        if fresh:
            raise Violation("keys that differ were refused", source=src,
                            error=str(e))
        return
    if not fresh:
        raise Violation("the same key twice was accepted", source=src,
                        keys=[(s.key, s.context) for s in strings])
    ctx.outcome(tuple((s.key, s.context) for s in strings))
    hashes = [s.string_hash for s in strings]
    if len(set(hashes)) != len(hashes):
        raise Violation("strings share their identity", source=src,
                        keys=[(s.key, s.context) for s in strings])
    expect(len(strings), n, "number of strings", source=src)
    for which in [set(range(n))] + [{i} for i in range(n)]:
        ctx.step()
        values = ["w%dy" % i if i in which else "v%dx" % i for i in range(n)]
        out = new(beta).compile(template, [
            translated(strings, i, {1: "1", 5: values[i]} if plural[i]
                       else values[i]) for i in range(n)])
        expect(out, build(values), "translations by key", source=src)


def android_docs(ctx, part, parts):
    kinds = ["string", "plurals", "array1", "array2"]
    names = ["a", "b", "a[0]", "a[1]", "a\\[0]", "a\\", "A", "a.b"]
    products = [None, "", "p", "string", "plurals", "pstring", "item",
                "string-array"]
    every = list(itertools.product(kinds, names, products))
    few = list(itertools.product(
        ["string", "plurals", "array1"], ["a", "a[0]"],
        [None, "string", "plurals", "item"] +
        (["string-array", "stringstring", "p"] if ctx.thorough else [])))
    tight = list(itertools.product(
        ["string", "plurals", "array1"], ["a"],
        [None, "string", "plurals", "item", "2", "stringstring", "plurals2",
         "pluralsstring", "itemstring"]))
    todo = itertools.chain(itertools.product(every, repeat=2),
                           itertools.product(few, repeat=3),
                           itertools.product(tight, repeat=3))
    if ctx.thorough:
        todo = itertools.chain(todo, itertools.product(
            [e for e in tight if e[2] in (None, "string", "plurals",
                                          "stringstring", "item")], repeat=4))
    for i, es in enumerate(todo):
        if i % parts == part:
            android_case(ctx, es, False)
            pairs = [(e[1], e[2] or "") for e in es]
            if len(set(pairs)) == len(pairs) and not any(
                    "[" in e[1] for e in es):
                android_case(ctx, es, True)
    if part == 0:
        a = ("string", "a", None)
        for sig, es in [
                ("beta android: the same name twice", (a, a)),
                ("beta android: one name for two kinds",
                 (a, ("plurals", "a", None))),
                ("beta android: a name like an item of an array",
                 (("array1", "a", None), ("string", "a[0]", None)))]:
            android_case(ctx, es, True, "C35:" + sig)


# -- stringsdict ----------------------------------------------------------------

def dict_handler():
    from openformats.formats.stringsdict import StringsDictHandler
    h = StringsDictHandler()
    if hasattr(h, "set_plural_rules"):
        h.set_plural_rules([1, 5])
    return h


def dict_text(entries, values):
    it = iter(values)
    return ("<plist version=\"1.0\">\n<dict>\n%s</dict>\n</plist>\n" % "".join(
        "<key>%s</key>\n<dict>\n<key>NSStringLocalizedFormatKey</key>\n"
        "<string>%s</string>\n%s</dict>\n" % (
            k, "%%#@%s@" % vs[0], "".join(
                "<key>%s</key>\n<dict>\n<key>NSStringFormatSpecTypeKey</key>\n"
                "<string>NSStringPluralRuleType</string>\n<key>"
                "NSStringFormatValueTypeKey</key>\n<string>d</string>\n"
                "<key>one</key>\n<string>1</string>\n<key>other</key>\n"
                "<string>%s</string>\n</dict>\n" % (v, next(it)) for v in vs))
        for k, vs in entries))


def dict_trace(ctx, entries):
    from openformats.exceptions import ParseError
    n = sum(len(vs) for _, vs in entries)
    keys = [k for k, _ in entries]
    fresh = len(set(keys)) == len(keys)
    src = dict_text(entries, ["v%dx" % i for i in range(n)])
    ctx.step()
    try:
        template, strings = dict_handler().parse(src)
    except ParseError as e:
        ctx.outcome(str(e)[:60])
        if fresh:
            raise Violation("keys that differ were refused", source=src,
                            error=str(e))
        return
    if not fresh:
        raise Violation("the same key twice was accepted", source=src)
    hashes = [s.string_hash for s in strings]
    ctx.outcome(tuple((s.key, s.context) for s in strings))
    if len(set(hashes)) != len(hashes) or len(hashes) != n:
        raise Violation("strings share their identity", source=src,
                        keys=[(s.key, s.context) for s in strings])
    for which in [set(range(n))] + [{i} for i in range(n)]:
        ctx.step()
        values = ["w%dy" % i if i in which else "v%dx" % i for i in range(n)]
        out = dict_handler().compile(template, [
            translated(strings, i, {
                r: t.replace("v%dx" % i, values[i])
                for r, t in s._strings.items()})
            for i, s in enumerate(strings)])
        want = dict_text(entries, values)
        expect(out, want, "translations by key", source=src)


def dict_docs(ctx, part, parts):
    mains = ["a", "b", "a.b", "a:", "a\\", " ", "A", "\u00e9", "e\u0301"]
    variables = [("x",), ("y",), ("x", "y"), ("b",), (".b",), ("y", "x")]
    every = list(itertools.product(mains, variables))
    small = list(itertools.product(["a", "a.b", "b"],
                                   [("x",), ("b",), ("x", "b")]))
    for i, es in enumerate(itertools.chain(
            itertools.product(every, repeat=2),
            itertools.product(small, repeat=3))):
        if i % parts == part:
            ctx.distinct()
            ctx.case(dict_trace, ctx, es, replay=("stringsdict", es))


# -- VTT ------------------------------------------------------------------------

def vtt_handler():
    from openformats.formats.vtt import VttHandler
    return VttHandler()


def vtt_trace(ctx, cues):
    def build(values):
        return "WEBVTT\n\n" + "\n".join(
            (c[0] + "\n" if c[0] else "") + c[1] + "\n" + v + "\n"
            for c, v in zip(cues, values))
    check(ctx, vtt_handler, build, len(cues), True)


def vtt_docs(ctx, part, parts):
    cues = [(i, "%s --> %s" % (a, b) + p)
            for i in ("", "1", "2") for a in ("00:01.000", "00:00:01.000")
            for b in ("00:02.000", "00:03.000") for p in ("", " line:0")]
    small = [c for c in cues if c[0] != "2" and "00:00:" not in c[1]]
    for i, cs in enumerate(itertools.chain(
            itertools.product(cues, repeat=2),
            itertools.product(small, repeat=3),
            itertools.product([cues[0], cues[1], small[-1]], repeat=5))):
        if i % parts == part:
            ctx.distinct()
            ctx.case(vtt_trace, ctx, cs, replay=("vtt", cs))


HANDLERS = {"json": lambda: json_handler("json"), "yaml": yaml_handler}
DOCS = {"json": (json_docs, 12), "yaml": (yaml_docs, 16),
        "android": (android_docs, 10), "stringsdict": (dict_docs, 4),
        "vtt": (vtt_docs, 3)}


def bounds(tier):
    return {"json keys": len(JKEYS), "yaml keys": len(YKEYS),
            "documents": "every pair of paths of one or two elements, every "
            "triple of selected paths; JSON, structured JSON, Chrome, ARB, "
            "YAML in block and flow style with and without language root, "
            "Android, legacy Android, stringsdict and VTT"}


ASSUMPTIONS = (
    "texts that are read are looked up by their hash, as translations are",
    "YAML keys written like the marks of numbers and dots, '<1>' and "
    "'<TX_DOT>', are named probes")


def probe(ctx, sig, text):
    ctx.distinct()

    def run():
        _, strings = yaml_handler().parse(text)
        hashes = [s.string_hash for s in strings]
        if len(set(hashes)) != len(hashes):
            raise Violation("strings share their identity", source=text)
    ctx.case(run, replay=text, signature="C35:" + sig)


def shards(tier):
    return [(k, i) for k in sorted(DOCS) for i in range(DOCS[k][1])]


def explore(ctx, shard):
    kind, part = shard
    fn, parts = DOCS[kind]
    ctx.scope(kind)
    fn(ctx, part, parts)
    if kind == "yaml" and part == 0:
        probe(ctx, "YAML key '<1>' besides 1", "1: x\n\"<1>\": y\n")
        probe(ctx, "YAML key 'a<TX_DOT>b' besides 'a.b'",
              "a.b: x\na<TX_DOT>b: y\n")
