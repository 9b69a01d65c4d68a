"""C38 - damaged files are refused with a parse error, never with a crash."""
from __future__ import unicode_literals

import itertools

from vp import corpus
from vp.core import Violation, expect

TOKENS = {
    "json": ["{", "}", "[", "]", "\"", ":", ",", "\\", "0", "-", "a", "\n",
             "null", "\u00e9", "{}", "\"\"", "\\u12", "'"],
    "xml": ["<", ">", "/", "\"", "&", "=", "<!--", "-->", "</", "/>", "a",
            "\n", "<a/>", "<![CDATA[", "]]>", "<?x?>", "&#0;", "&x;", "\0"],
    "yaml": [":", "- ", "\n", " ", "\t", "\"", "'", "#", "&a ", "*a", "!t ",
             "|", ">", "{", "}", "[", "]", ",", "---\n", "...\n", "? ", "%",
             "@", "\u0007", "!!int ", "!!binary ", "<<: "],
    "po": ["msgid ", "msgstr ", "msgstr[0] ", "msgctxt ", "\"", "\\", "\n",
           "#", "#~ ", "#, ", "#| ", "msgid_plural ", "[", "]", "a", " "],
    "sub": ["\n", " ", "1", "0", ":", ",", ".", "-->", "-", "a", "NOTE",
            "WEBVTT", "STYLE", "\u0661"],
    "text": ["\n", " ", "#", "*", "`", "```", "|", "[", "]", "(", ")", "<",
             ">", "---\n", "!", "\\", "\"", ":", "{%", "_", "a", "\t", "1. ",
             "{{", "[^1]", "<!--"],
}
KIND = {}
for _names, _kind in (
        ("json structuredjson arb chrome chromev3", "json"),
        ("android android_unescaped beta_android stringsdict "
         "customizable_xml", "xml"), ("yaml yaml_i18n", "yaml"),
        ("po pot", "po"), ("srt vtt", "sub"),
        ("plaintext markdown markdown_v2 jsx", "text")):
    for _n in _names.split():
        KIND[_n] = _kind
FREE = {"quick": 3, "thorough": 4}


def bounds(tier):
    return {"formats": [f.name for f in corpus.FORMATS],
            "damage": "every prefix and suffix, every deletion, doubling and "
            "exchange of a character, every token at every place of every "
            "document of one or two units" + (
                "" if tier == "thorough" else " (two: of the whole file)"),
            "sequences": "every sequence of up to %d tokens" % FREE[tier],
            "tokens": TOKENS}


def trace(ctx, f, src):
    from openformats.exceptions import ParseError
    ctx.step()
    try:
        template, strings = f.parse(src)
    except ParseError as e:
        if not str(e).strip():
            raise Violation("error without a message", source=src)
        ctx.outcome((f.name, str(e)))
        return
    except Exception as e:
        raise Violation("%s: parse raised %s" % (f.name, type(e).__name__),
                        message=str(e)[:200], source=src)
    ctx.step()
    ctx.outcome((f.name, [s.string_hash for s in strings]))
    for s in strings:
        for v in s.strings.values():
            if not isinstance(v, str):
                raise Violation("%s: a string is not text" % f.name, value=v,
                                source=src)
    try:
        f.compile(template, strings)
    except Exception as e:
        raise Violation("%s: compile of a parsed file raised %s" % (
            f.name, type(e).__name__), message=str(e)[:200], source=src)


def damaged(src, tokens):
    n = len(src)
    for i in range(n + 1):
        yield src[:i]
        yield src[i:]
        if i < n:
            yield src[:i] + src[i + 1:]
            yield src[:i] + src[i] + src[i:]
        if i + 1 < n:
            yield src[:i] + src[i + 1] + src[i] + src[i + 2:]
        for t in tokens:
            yield src[:i] + t + src[i:]
            if i < n:
                yield src[:i] + t + src[i + 1:]


PARTS = 6


# Whole files which no small damage reaches.
EXTRA = {
    "yaml": ["1: a\n1: b\n", "1.5: a\n? [a]\n: b\n1.5: c\n", "? {a: b}\n: c\n",
             "!!binary YQ==: a\n!!binary YQ==: b\n", "null: a\n~: b\n",
             "a: &x {b: c}\n<<: *x\n", "a: &x [*x]\n", "2001-01-01: a\n"],
    "json": ["{\"a\": {\"b\": 1, \"b\": 2}}", "{\"a\": " + "[" * 50,
             "{\"a\": 1e999}", "{\"a\": -}", "\ufeff{}"],
    "po": ["msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=x\\n\"\n",
           "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[9] \"c\"\n",
           "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr \"c\"\n"],
    "sub": ["1\n99:99:99,999 --> 00:00:00,000\na\n",
            "WEBVTT\n\n99:99.999 --> 00:00.000\na\n", "WEBVTT\n\nSTYLE\n\na"],
    "xml": ["<!DOCTYPE a [<!ENTITY x \"y\">]><resources>"
            "<string name=\"a\">&x;</string></resources>"],
    "text": ["---\na: [\n---\nb\n", "---\na: b\na: c\n---\nb\n",
             "---\n? [a]\n: b\n---\nc\n"],
}


def shards(tier):
    return [(f.name, i) for i in range(PARTS) for f in corpus.FORMATS]


def inputs(f, tier):
    tokens = TOKENS[KIND[f.name]]
    seen = set()
    units = [u for u, _ in f.units]
    for s in EXTRA[KIND[f.name]]:
        seen.add(s)
        yield s
    docs = [f.doc((u,)) for u in units]
    if tier == "thorough":
        docs += [f.doc(p) for p in itertools.product(units, repeat=2)]
        docs.append(f.doc(units))
    for d in docs:
        for s in damaged(d, tokens):
            if s not in seen:
                seen.add(s)
                yield s
    for n in range(FREE[tier] + 1):
        for p in itertools.product(tokens, repeat=n):
            for s in ("".join(p), f.head + "".join(p) + f.tail):
                if s not in seen:
                    seen.add(s)
                    yield s


def explore(ctx, shard):
    f, part = corpus.BY_NAME[shard[0]], shard[1]
    for n, s in enumerate(inputs(f, ctx.tier)):
        if n % PARTS == part:
            ctx.distinct()
            ctx.case(trace, ctx, f, s, replay=(f.name, s))
    ctx.scope(f.name)
