"""C23 - Markdown v2 and JSX: blocks, [!NOTE] blocks and YAML headers."""
from __future__ import unicode_literals

import itertools
import unicodedata

from vp import md
from vp.core import expect
from vp.docs import S, check_doc, translated

MAX_A = {"quick": 3, "thorough": 4}
MAX_T = {"quick": 2, "thorough": 3}
EXTRA = ["\ufb01", "\u00a0", "\u2460"]      # NFKC changes these
TOKENS = md.TOKENS + EXTRA
LABELS = ["NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION"]
ALPHABET = "a: #\"'\\\n[]-*&@\u03b1\x08{%!?,|>=~0\r\x85\u2028"

# header: (text, path to the translated value, style)
HEADERS = {
    "plain": ("k: src\n", ["k"], ""),
    "single": ("k: 'src'\n", ["k"], "'"),
    "double": ('k: "src"\n', ["k"], '"'),
    "comment": ("# src\nk: src # c\n", ["k"], ""),
    "nested plain": ("src:\n  k: src\n", ["src", "k"], ""),
    "nested single": ("n:\n  k: 'src'\n", ["n", "k"], "'"),
    "nested double": ('n:\n  k:   "src"\n', ["n", "k"], '"'),
    "list plain": ("k:\n  - src\n  - b\n", ["k", 0], ""),
    "list double": ('k:\n- "src"\n', ["k", 0], '"'),
    "flow list": ("k: [src, b]\n", ["k", 0], "flow"),
    "flow list double": ('k: ["src", b]\n', ["k", 0], '"'),
    "number as key": ('"1": src\n', ["1"], ""),
    "number of a string as key": ('"4": src\n', ["4"], ""),
    "bare number as key": ("3: 'src'\n", [3], "'"),
    "flow map": ("k: {s: src, b: c}\n", ["k", "s"], "flow"),
}
NOTE_TRANSLATIONS = [
    (lambda i, s: "T%d" % i),
    (lambda i, s: "> [!%s]\n> T%d\n>\n>   - x\n\n> y" % (
        LABELS[i % 5], i) if "[!" in s.value else
     "T%d\n  \\1" % i if s.key.isdigit() else "T%d 'x" % i),
]


def H():
    from openformats.formats.github_markdown_v2 import (
        GithubMarkdownHandlerV2)
    return GithubMarkdownHandlerV2()


def J():
    from openformats.formats.markdown_jsx import MarkdownJsxHandler
    return MarkdownJsxHandler()


def bounds(tier):
    return {"any text": {"tokens": TOKENS, "sequences up to": MAX_A[tier]},
            "blocks": {"kinds": md.NAMES + sorted(NOTES),
                       "texts": md.TEXTS, "headers": len(DOC_HEADERS)},
            "header values": {"styles": sorted(HEADERS),
                              "translations": "all strings over %r up to %d"
                              % (ALPHABET, MAX_T[tier])},
            "escape sequences of header values": len(ESCAPES),
            "newlines": ["UNIX", "DOS"], "handlers": ["v2", "JSX"]}


def note(indent, label):
    """A [!NOTE] block whose lines are indented."""
    value = "> [!%s]\n> a\n>   b" % label
    pad = "\n" + " " * indent

    def render(v):
        if not v.startswith("> [!"):
            return v
        return "\n".join((" " * indent + line if n and line else line)
                         for n, line in enumerate(v.split("\n")))
    return S(None, pad.join(value.split("\n")), value, render)


NOTES = {"note": lambda l: [note(0, l)],
         "note in item": lambda l: ["- ", note(2, l)],
         "note in tenth item": lambda l: ["10. ", note(4, l)],
         "note under item": lambda l: ["1. ", ("x",), "\n\n   ", note(3, l)],
         "note under nested": lambda l: ["- ", ("a",), "\n  - ", ("a",),
                                         "\n\n    ", note(4, l)]}
QUOTES = ("note", "quote", "quote lines")


def key(*parts):
    return ".".join(parts)


DOC_HEADERS = [
    [],
    ["---\ntitle: ", S("title", "a"), "\n---\n"],
    ["---\na: ", S("a", "a"), " # a\n# a\nn:\n  a: '",
     S("n.a", "b c"), "'\n  l:\n    - ", S("n.l.[0]", "a"),
     "\n---\n\n"],
]


def header_strings(segs):
    """Fresh objects: the expected strings carry state of one document.  The
    quotes belong to the translatable region."""
    out = []
    for s in segs:
        if isinstance(s, S):
            quoted = out and out[-1].endswith("'")
            if quoted:
                out[-1] = out[-1][:-1]
                out.append(S(s.key, "'%s'" % s.raw, s.raw,
                             lambda v: "'%s'" % v.replace("'", "''")))
            else:
                out.append(S(s.key, s.raw, s.raw))
            out[-1].check_attrs = set(["context"])
        elif isinstance(s, str) and out and isinstance(out[-1], S) and \
                out[-1].raw.startswith("'"):
            out.append(s[1:])
        else:
            out.append(s)
    return out


def trace_any(ctx, src):
    for new in (H, J):
        md.soup(ctx, new, src, keys=not src.startswith("---"), norm=norm)


def norm(src):
    return unicodedata.normalize("NFKC", md.normalised(src))


def parts_of(name, arg):
    return NOTES[name](arg) if name in NOTES else md.instance(name, arg)


def trace_blocks(ctx, names, args, header, translations):
    doc = md.build([parts_of(n, t) for n, t in zip(names, args)],
                   header_strings(header))
    check_doc(ctx, H, doc, translations)


def legal(names, header=()):
    real = ["quote" if n == "note" else "list" if n in NOTES else n
            for n in names]
    return md.legal(real, header)


def plain_domain(style, v):
    if style in ("'", '"'):
        return True
    if v != v.strip() or not v:
        return False
    # Translations that already have quotes or brackets around them, or that
    # begin with a pipe, are written as they are (by design, see the tests of
    # the repository).
    return not (v[0] in "|[" or (len(v) > 1 and v[0] == v[-1]
                                 and v[0] in "\"'"))


def trace_header(ctx, name, values):
    text, path, style = HEADERS[name]
    body = "z: y\n---\n\n# b\n\nsrc\n"
    import yaml
    ctx.step()
    tmpl, got = H().parse("---\n" + text + body)
    strings = [g.string for g in got]
    pos = strings.index("src")
    expect(strings[-3:], ["y", "b", "src"], "strings", source=text + body)
    base = yaml.safe_load(text + "z: y\n")
    for v in values:
        if not plain_domain(style, v):
            continue
        objs = [translated(got, i, v if i == pos else g.string)
                for i, g in enumerate(got)]
        ctx.step(2)
        ctx.beat += 1
        out = H().compile(tmpl, objs)
        again = H().parse(out)[1]
        expect([(a.key, a.string) for a in again],
               [(o.key, o.string) for o in objs],
               "strings of the compiled file", value=v, compiled=out)
        expect(objs[pos].string, v, "the translation was altered")
        if "\x08" not in v:
            want = base
            node = base
            for p in path[:-1]:
                node = node[p]
            node[path[-1]] = v
            head, rest = out[4:].split("\n---\n", 1)
            expect(yaml.safe_load(head), want, "header as read by YAML",
                   value=v, compiled=out)
            expect(rest, "\n# b\n\nsrc\n", "rest of the file", compiled=out)
        ctx.outcome(out)


PROBES = {
    "literal header value": "---\nk: |\n  a\n  b\nz: y\n---\n\nx\n",
    "folded header value": "---\nk: >\n  a\n  b\nz: y\n---\n\nx\n",
}


def trace_probe(ctx, name):
    src = PROBES[name]
    ctx.step(2)
    tmpl, got = H().parse(src)
    out = H().compile(tmpl, got)
    again = H().parse(out)[1]
    expect([a.string for a in again], [g.string for g in got],
           "strings of the compiled file", compiled=out)


QUOTES_OF = {"plain": "", "single": "'", "double": '"'}
CONTROLS = set(range(0xa0)) - set(range(0x20, 0x7f)) - {9, 10, 13, 0x85}
ESCAPES = ["\\x%02x" % n for n in range(256)] + [
    "\\x%02X" % n for n in (0x1b, 0x7f, 0x9a)] + [
    "\\u%04x" % n for n in sorted(CONTROLS) + [0x20, 0x41, 0x85, 0xa0,
                                               0x3b1, 0xfffe, 0xffff]]
ESCAPES += ["\\u001B", "\\u007F"]


def meaning(style, escape):
    """What an escape sequence of a header value stands for: characters that
    cannot be printed are unescaped in all styles."""
    n = int(escape[2:], 16)
    if style == "double":
        return chr(n)
    if n in CONTROLS or n in (0xfffe, 0xffff):
        return escape if escape == "\\x00" else chr(n)
    return escape


def trace_escape(ctx, style, escapes):
    q = QUOTES_OF[style]
    src = "---\nk: %sa%sb%s\nz: y\n---\n\nx\n" % (q, "c".join(escapes), q)
    ctx.step(3)
    tmpl, got = H().parse(src)
    want = "a" + "c".join(meaning(style, e) for e in escapes) + "b"
    expect([g.string for g in got], [want, "y", "x"], "strings", source=src)
    out = H().compile(tmpl, got)
    if norm(want) == want:
        expect([g.string for g in H().parse(out)[1]], [want, "y", "x"],
               "strings of the compiled file", source=src, compiled=out)
    expect([g.string for g in got], [want, "y", "x"],
           "the strings were altered", source=src)
    ctx.outcome(out)


def shards(tier):
    out = [("any", i, j) for i in range(len(TOKENS))
           for j in range(-1, len(TOKENS))]
    out += [("blocks", n) for n in md.NAMES + sorted(NOTES)]
    out += [("header", n, c) for n in sorted(HEADERS) for c in ALPHABET]
    out += [("escape", n) for n in sorted(QUOTES_OF)]
    out += [("probe", n) for n in sorted(PROBES)]
    return out


def explore(ctx, shard):
    if shard[0] == "any":
        i, j = shard[1:]
        first = [TOKENS[i]]
        rests = [()]
        if j >= 0:
            first.append(TOKENS[j])
            rests = [r for n in range(0, MAX_A[ctx.tier] - 1)
                     for r in itertools.product(TOKENS, repeat=n)]
        for rest in rests:
            src = "".join(first + list(rest))
            if ctx.state(src):
                ctx.case(trace_any, ctx, src, replay=src)
        ctx.scope("any text")
        return
    if shard[0] == "header":
        name, c = shard[1:]
        values = [c + "".join(r) for n in range(MAX_T[ctx.tier])
                  for r in itertools.product(ALPHABET, repeat=n)]
        for v in values:
            ctx.distinct()
            ctx.case(trace_header, ctx, name, [v], replay=(name, v))
        ctx.scope("header values")
        return
    if shard[0] == "escape":
        some = [e for e in ESCAPES if int(e[2:], 16) in (0, 8, 0x41, 0x9a)]
        for seq in [(e,) for e in ESCAPES] + list(
                itertools.product(some, repeat=2)):
            ctx.distinct()
            ctx.case(trace_escape, ctx, shard[1], seq,
                     replay=(shard[1], seq))
        return
    if shard[0] == "probe":
        ctx.distinct()
        ctx.case(trace_probe, ctx, shard[1], replay=PROBES[shard[1]],
                 signature="C23:%s" % shard[1])
        return
    first = shard[1]

    def args(name):
        return LABELS if name in NOTES else md.TEXTS
    names = md.NAMES + sorted(NOTES)
    for hi, header in enumerate(DOC_HEADERS):
        for t1 in args(first):
            if legal([first], header):
                ctx.distinct()
                ctx.case(trace_blocks, ctx, [first], [t1], header,
                         NOTE_TRANSLATIONS, replay=(first, t1, hi))
            for second in names:
                if not legal([first, second], header):
                    continue
                for t2 in args(second):
                    ctx.distinct()
                    ctx.case(trace_blocks, ctx, [first, second], [t1, t2],
                             header, NOTE_TRANSLATIONS,
                             replay=(first, second, t1, t2, hi))
    kinds = sorted(NOTES) + (md.NAMES if ctx.thorough else md.CORE[:8])
    if first in kinds:
        for rest in itertools.product(kinds, repeat=2):
            seq = [first] + list(rest)
            if not legal(seq):
                continue
            ctx.distinct()
            ts = [args(n)[k % len(args(n))] for k, n in enumerate(seq)]
            ctx.case(trace_blocks, ctx, seq, ts, [], NOTE_TRANSLATIONS,
                     replay=(seq, ts))
    ctx.scope("blocks")
    ctx.sample([first])
