"""C19 - YAML: any translation is read back exactly, in every style."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation
from vp.checks.c18 import block, in_order
from vp.docs import translated
from vp.yamlmodel import K, Emit, Map, Sc, Seq, load, strict

TOKENS = ["a", " ", "\n", ": ", ":", " #", "#", "- ", "'", "\"", "\\", "{",
          "]", ",", "%", "\t", "\u03b1", "\U0001F600", "\x07", "\u2028",
          "yes", "12", "1.5", "~", "null", "=", "<<", "&", "*", "!", "|",
          ">", "@", "`", "?", "? ", "---", "...", "-", "2001-01-01", "0x1f",
          "\\n", "\ufeff", "\r", "$"]
CORE = ["a", " ", "\n", ": ", "#", "- ", "'", "\"", "\\", "\t", "|", "yes",
        "%", "\u2028"]
STYLES = {
    "plain": lambda: Sc("old", "old", ""),
    "single": lambda: Sc("'old'", "old", "'"),
    "double": lambda: Sc("\"old\"", "old", "\""),
    "literal": lambda: Sc(block("old\n"), "old\n", "|", block=True),
    "folded": lambda: Sc(block("old\n", ">"), "old\n", ">", block=True),
    "foldedstrip": lambda: Sc(block("old\n", ">-"), "old", ">", block=True),
    "literalstrip": lambda: Sc(block("old\n", "|-"), "old", "|", block=True),
    "tagged": lambda: Sc("!bar old", "old", "", "bar"),
    "taggedlit": lambda: Sc(lambda n: "!bar " + block("old\n")(n), "old\n",
                            "|", "bar", block=True),
}
FLOWSTYLES = ["plain", "single", "double", "tagged"]
LAYOUTS = [("2", 2, 2, "- ", "", "\n"), ("4", 4, 4, "- ", "---\n", "\n"),
           ("seq0", 2, 0, "- ", "", ""), ("1", 1, 1, "-  ", "", "\n")]


def one(name, c, n):
    return lambda: STYLES[name]()


def positions(name):
    """The string in every kind of place; fresh scalars each time."""
    s = STYLES[name]
    out = [
        Map([(K("k"), s(), []), (K("z"), s(), [])]),
        Map([(K("m"), Map([(K("n"), s(), []), (K("o"), Map([
            (K("p"), s(), [])]), [])]), []), (K("z"), s(), [])]),
        Seq([s(), Seq([s(), s()]), Map([(K("q"), s(), []),
                                        (K("r"), s(), [])])]),
        Map([(K("m"), Seq([s(), Map([(K("q"), Seq([s()]), [])])]), []),
             (K("last"), s(), [])]),
    ]
    if name in FLOWSTYLES:
        out += [Map([(K("f"), Map([(K("a"), s(), []), (K("b"), s(), [])],
                                  flow=True), []),
                     (K("g"), Seq([s(), Seq([s()], flow=True)], flow=True),
                      [])])]
    return out


def bounds(tier):
    return {"tokens": TOKENS, "core tokens": CORE,
            "texts": "every sequence of up to %s" % (
                "3 tokens, and of up to 5 core tokens" if tier == "thorough"
                else "2 tokens, and of up to 3 core tokens"),
            "long texts": len(LONG),
            "styles": sorted(STYLES), "layouts": [l[0] for l in LAYOUTS],
            "places": "map, nested map, list, list of lists, list of maps, "
                      "flow collections; in the middle and at the end"}


def H():
    from openformats.formats.yaml import YamlHandler
    return YamlHandler()


_cache = {}


def prepared(name, lay, i18n):
    """(emission, template, stringset) of every document of a style."""
    k = (name, lay[0], i18n)
    if k not in _cache:
        out = []
        for tree in positions(name):
            if i18n:
                from openformats.formats.yaml import I18nYamlHandler
                h = I18nYamlHandler()
                h.set_plural_rules([1, 5])
                em = Emit(Map([(K("en"), tree, [])]), *lay[1:],
                          skip_root_key=True)
            else:
                h = H()
                em = Emit(tree, *lay[1:])
            t, got = h.parse(em.source())
            if len(got) != len(em.strings):
                raise Violation("stringset", got=[g.key for g in got],
                                source=em.source())
            out.append((h, em, t, got))
        _cache[k] = out
    return _cache[k]


def trace(ctx, name, lay, i18n, text):
    for h, em, tmpl, got in prepared(name, lay, i18n):
        vals = [text] * len(got)
        ctx.step()
        out = h.compile(tmpl, [translated(got, i, text)
                               for i in range(len(got))])
        try:
            back = load(out)
        except Exception as e:
            raise Violation("output is not valid YAML", got=out,
                            translation=text, error=str(e),
                            source=em.source())
        if strict(back) != strict(em.meaning(vals)):
            raise Violation("the translation is read back differently",
                            got=out, loaded=back, translation=text,
                            source=em.source())
        in_order(out, em.literals(), "translation", translation=text)
        ctx.outcome(out)


def shards(tier):
    out = []
    for name in sorted(STYLES):
        for li in range(len(LAYOUTS)):
            for i18n in (False, True):
                if i18n and li > 1:
                    continue
                out += [(name, li, i18n, t) for t in range(len(TOKENS))]
    return out


def texts(tier, t):
    first = TOKENS[t]
    yield first
    for r in range(1, 3 if tier else 2):
        for rest in itertools.product(TOKENS, repeat=r):
            yield first + "".join(rest)
    if first in CORE:
        for r in range(2, 5 if tier else 3):
            for rest in itertools.product(CORE, repeat=r):
                if not tier or r > 2:
                    yield first + "".join(rest)


LONG = ["word " * 120 + "end", "word  " * 120 + "end", "a:b'\"" * 200,
        "x" * 500 + " #y", "word, " * 60 + "[" + "word " * 60 + "]",
        "line\n" * 60, "long " * 80 + "\n" + "long " * 80,
        "\u03b1 " * 300 + "\u2028\u03b1", "\\" * 300 + '"',
        "word " * 80 + "\t" + " word" * 80]


def explore(ctx, shard):
    name, li, i18n, t = shard
    if not t:
        for text in LONG:
            ctx.distinct()
            ctx.case(trace, ctx, name, LAYOUTS[li], i18n, text,
                     replay={"style": name, "layout": LAYOUTS[li][0],
                             "i18n": i18n, "translation": text})
    thorough = ctx.thorough
    if li > 1 or i18n:
        thorough = False
    for text in texts(thorough, t):
        if not text.strip():
            continue
        if ctx.state((name, li, i18n, text)):
            ctx.case(trace, ctx, name, LAYOUTS[li], i18n, text,
                     replay={"style": name, "layout": LAYOUTS[li][0],
                             "i18n": i18n, "translation": text})
    ctx.sample({"style": name, "text": text})
