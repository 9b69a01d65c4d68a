"""C20 - internationalized YAML: plurals and the language root."""
from __future__ import unicode_literals

import itertools
import json

import yaml

from vp.core import Violation, expect
from vp.docs import S, compare_stringset, dos, translated

MAX_T = {"quick": 2, "thorough": 3}
ALPHABET = "a: #\"'\\\n|-[]{},&*@\u03b1\U0001F600\u2028\x85\x08\t>?!%0"
RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}
NAMES = {v: k for k, v in RULES.items()}
SETS = [(1, 5), (5,), (1, 3, 4, 5), (0, 1, 2, 3, 4, 5)]
STYLES = ["", "'", '"', "|", ">"]


class Loader(yaml.SafeLoader):
    pass


def load(text):
    return yaml.load(text, Loader=Loader)


def H(rules=(1, 5)):
    from openformats.formats.yaml import I18nYamlHandler
    h = I18nYamlHandler()
    h.set_plural_rules(list(rules))
    return h


def scalar(style, text, pad):
    """A value in a style, as it is found in files."""
    if style in ("'", '"'):
        return style + text + style
    if style in ("|", ">"):
        return style + "\n" + pad + text
    return text


def value_of(style, text):
    return text + "\n" if style in ("|", ">") else text


# -- entries: each gives lines relative to an indentation, expected strings
#    and whether compiling must reproduce the very text

def plural(styles, order=("one", "other"), name="k"):
    def make(n, pad, step):
        key = name + str(n)
        src = pad + key + ":\n"
        vals = {}
        inner = pad + " " * step
        for r, st in zip(order, styles):
            text = "%s%d" % (r, n)
            src += inner + r + ": " + scalar(
                st, text, inner + " " * 2) + "\n"
            vals[RULES[r]] = value_of(st, text)
        return src, [(key, vals)]
    return make


def flow(styles, layout):
    def make(n, pad, step):
        key = "f%d" % n
        items = ["%s: %s" % (r, scalar(st, r + str(n), ""))
                 for r, st in zip(("one", "other"), styles)]
        inner = pad + " " * step
        body = {
            "lines": "{\n" + inner + (",\n" + inner).join(items) + "\n" +
                     pad + "}",
            "aligned": "{" + (",\n" + inner).join(items) + "}",
            "one line": "{ " + ", ".join(items) + " }",
            "json": '{"one":  "one%d", "other": "other%d"}' % (n, n),
        }[layout]
        return pad + key + ": " + body + "\n", [
            (key, {1: "one%d" % n, 5: "other%d" % n})]
    return make


def text(n, pad, step):
    return "%st%d: text %d\n" % (pad, n, n), [("t%d" % n, "text %d" % n)]


def nested(inner):
    def make(n, pad, step):
        src, strings = inner(n, pad + " " * step, step)
        return "%sn%d:\n%s" % (pad, n, src), [
            ("n%d.%s" % (n, k), v) for k, v in strings]
    return make


def listed(inner, indented):
    def make(n, pad, step):
        lead = pad + (" " * step if indented else "")
        src, strings = inner(n, lead + "  ", step)
        src = lead + "- " + src[len(lead) + 2:]
        return "%sl%d:\n%s" % (pad, n, src), [
            ("l%d.[0].%s" % (n, k), v) for k, v in strings]
    return make


def not_plural(extra):
    def make(n, pad, step):
        inner = pad + " " * step
        src = pad + "p%d:\n" % n
        out = []
        for k in {"missing": ["one", "two"],
                  "extra": ["one", "other", "x"],
                  "nested": ["one"]}[extra]:
            src += "%s%s: v%d\n" % (inner, k, n)
            out.append(("p%d.%s" % (n, k), "v%d" % n))
        if extra == "nested":
            src += "%sother:\n%sq: w\n" % (inner, inner + " " * step)
            out.append(("p%d.other.q" % n, "w"))
        return src, out
    return make


def empty(n, pad, step):
    inner = pad + " " * step
    return '%se%d:\n%sone: ""\n%sother: ""\n' % (pad, n, inner, inner), []


def comment(n, pad, step):
    inner = pad + " " * step
    return ("%s# c\n%sc%d:\n%s# d\n%sone: a\n%sother: b\n%s# e\n\n" % (
        pad, pad, n, inner, inner, inner, pad)), [
            ("c%d" % n, {1: "a", 5: "b"})]


ENTRIES = {"text": text, "empty": empty, "comment": comment}
for a, b in itertools.product(STYLES, STYLES):
    ENTRIES["plural %s %s" % (a or "plain", b or "plain")] = plural((a, b))
ENTRIES["plural reversed"] = plural(("", "'"), ("other", "one"))
ENTRIES["plural reversed |"] = plural(("", "|"), ("other", "one"))
for a, b in [("", ""), ("'", '"'), ('"', "")]:
    for layout in ("lines", "aligned", "one line", "json"):
        ENTRIES["flow %s %s" % (a + b, layout)] = flow((a, b), layout)
ENTRIES["nested"] = nested(plural(("", "")))
ENTRIES["nested |"] = nested(nested(plural(("'", "|"))))
ENTRIES["nested flow"] = nested(flow(("", ""), "aligned"))
ENTRIES["list"] = listed(plural(("", "")), True)
ENTRIES["list |"] = listed(plural(("|", "|")), False)
ENTRIES["list 0"] = listed(plural(("'", "")), False)
for x in ("missing", "extra", "nested"):
    ENTRIES["not plural " + x] = not_plural(x)
KINDS = sorted(ENTRIES)
CORE = ["text", "plural plain plain", "plural plain |", "plural ' \"",
        "flow  aligned", "nested |", "list 0", "comment", "empty",
        "not plural extra"]
SAME_LAYOUT = ("one line", "json")


def bounds(tier):
    return {"entries": KINDS, "indentation": [1, 2, 4],
            "documents": "all sequences of up to 2 entries, of 3 core "
            "entries" + (", of 3 entries" if tier == "thorough" else ""),
            "translations": "all strings over %r up to %d for every style "
            "and place" % (ALPHABET, MAX_T[tier]),
            "plural rules of the translation": SETS,
            "newlines": ["UNIX", "DOS"]}


def document(names, step, end=True):
    src, strings = "en:\n", []
    for n, name in enumerate(names):
        s, x = ENTRIES[name](n, " " * step, step)
        src += s
        strings += x
    if not end:
        src = src[:-1]
    out = []
    for k, v in strings:
        out.append(S(k, "", v, developer_comment="d"))
        out[-1].check_attrs = set(["context"] + (
            ["developer_comment"] if k[0] == "c" else []))
    return src, out


def put(data, key, value):
    node = data["en"]
    parts = key.split(".")
    for p in parts[:-1]:
        node = node[int(p[1:-1])] if p[0] == "[" else node[p]
    node[parts[-1]] = value


def names_of(v):
    return ({NAMES[r]: t for r, t in v.items()} if isinstance(v, dict)
            else v)


def trace_doc(ctx, names, step, end):
    src, strings = document(names, step, end)
    if not end and src.endswith("\n"):
        return
    for conv in (lambda t: t, dos):
        text = conv(src)
        ctx.step(2)
        h = H()
        tmpl, got = h.parse(text)
        compare_stringset(got, [adjust(s, end, src) for s in strings], text)
        out = h.compile(tmpl, list(got))
        if not any(l in n for n in names for l in SAME_LAYOUT) and end:
            expect(out, text, "compiling the unchanged strings",
                   source=text, template=tmpl)
        else:
            expect(load(out), load(text), "contents of the compiled file",
                   source=text, compiled=out)
        ctx.outcome(out)
        if not strings:
            continue
        # translations of every string at once, for other plural rules
        for rules in SETS:
            want = load(text)
            objs = []
            for i, g in enumerate(got):
                v = ({r: "T%d: %d" % (i, r) for r in rules}
                     if g.pluralized and len(rules) > 1 else
                     {r: "T%d: %d" % (i, r) for r in (1, 5)}
                     if g.pluralized else "U%d" % i)
                objs.append(translated(got, i, v))
                put(want, g.key, names_of(v))
            ctx.step(2)
            out = H().compile(tmpl, objs)
            expect(load(out), want, "translated contents", source=text,
                   compiled=out)
            if conv is dos and "\n" in out.replace("\r\n", ""):
                raise Violation("mixed newlines", compiled=out)
            again = H(rules if len(rules) > 1 else (1, 5)).parse(out)[1]
            expect([(a.key, a.string) for a in again],
                   [(o.key, o.string) for o in objs],
                   "strings of the compiled file", compiled=out)
            check_styles(ctx, tmpl, got, rules)


def styles_of(string):
    """The style of every form."""
    return json.loads(string.flags.split(":")[-1].replace("<COLON>", ":"))


def check_styles(ctx, tmpl, got, rules):
    """Texts that can be written in any style are written in that of the
    source."""
    if len(rules) == 1:
        rules = (1, 5)
    objs = [translated(got, i, {r: "T%dr%d" % (i, r) for r in rules}
                       if g.pluralized else g.string)
            for i, g in enumerate(got)]
    ctx.step(2)
    out = H().compile(tmpl, objs)
    for g, a in zip(got, H(rules).parse(out)[1]):
        if not g.pluralized:
            expect(a.flags, g.flags, "style", compiled=out)
            continue
        old, new = styles_of(g), styles_of(a)
        expect(a.flags.rsplit(":", 1)[0], g.flags.rsplit(":", 1)[0],
               "style", compiled=out)
        for r in sorted(new):
            if r in old:
                expect(new[r], old[r], "style of a form", compiled=out)
            elif new[r] not in old.values():
                raise Violation("style of an added form", compiled=out)


def adjust(s, end, src):
    if end or not isinstance(s.value, dict):
        return s
    # without the last newline of the file block scalars don't end in one
    tail = src.rsplit("\n", 1)[-1].strip()
    s.value = {r: (t[:-1] if t.endswith("\n") and t[:-1] == tail else t)
               for r, t in s.value.items()}
    return s


BODY = {}


def trace_translation(ctx, name, step, v):
    names = [name, "text"]
    src, strings = document(names, step)
    if (name, step) not in BODY:
        BODY[name, step] = H().parse(src)
    tmpl, got = BODY[name, step]
    pos = [i for i, s in enumerate(strings) if isinstance(s.value, dict)][0]
    for value in ({1: v, 5: "x"}, {1: "x", 5: v}):
        want = load(src)
        objs = [translated(got, i, value if i == pos else g.string)
                for i, g in enumerate(got)]
        put(want, got[pos].key, names_of(value))
        ctx.step(2)
        out = H().compile(tmpl, objs)
        expect(load(out), want, "translated contents", source=src,
               compiled=out, value=v)
        again = H().parse(out)[1]
        expect([(a.key, a.string) for a in again],
               [(o.key, o.string) for o in objs],
               "strings of the compiled file", compiled=out)
        ctx.outcome(out)


TR_KINDS = ["plural plain plain", "plural ' '", 'plural " "', "plural | |",
            "plural > >", "flow  aligned", "flow '\" lines", "nested |",
            "list 0", "list |", "nested flow"]
LONG = ["a\n\n", "a\n\n\n", "a\nb\n\n", "a\n\nb", "a\n\n\nb\n", " a\n b",
        "a\n  b\nc", "\n\na", "a\n...", "...\na", "---", "a\n# b", "a" * 200,
        "word " * 60 + "end", "one: two\nthree: four", "- a\n- b", "null",
        "true", "1.5", "'a'", '"a"', "a\r\nb", "other: x"]
ROOTS = ["", "x\n", "- a\n", "a: b\nc: d\n", "en: {}\nfr: {}\n", "12",
         "# c\n", "[]", "{}", "---\n"]


def trace_root(ctx, src):
    from openformats.exceptions import ParseError
    ctx.step()
    try:
        H().parse(src)
    except ParseError as e:
        ctx.outcome(str(e))
        return
    raise Violation("a file without a single root key was accepted",
                    source=src)


def shards(tier):
    out = [("doc", k, s) for k in KINDS for s in (1, 2, 4)]
    out += [("tr", k, c) for k in TR_KINDS for c in ALPHABET]
    out += [("root",)]
    return out


def explore(ctx, shard):
    if shard[0] == "root":
        for r in ROOTS:
            ctx.distinct()
            ctx.case(trace_root, ctx, r, replay=r)
        return
    if shard[0] == "tr":
        name, c = shard[1:]
        for n in range(MAX_T[ctx.tier]):
            for r in itertools.product(ALPHABET, repeat=n):
                v = c + "".join(r)
                ctx.distinct()
                ctx.case(trace_translation, ctx, name, 2, v,
                         replay=(name, v))
        if c == "a":
            for v in LONG:
                ctx.distinct()
                ctx.case(trace_translation, ctx, name, 2, v,
                         replay=(name, v))
        ctx.scope("translations")
        return
    first, step = shard[1:]
    seqs = [(first,)] + [(first, k) for k in KINDS]
    if step == 2:
        kinds = KINDS if ctx.thorough else CORE
        if first in kinds:
            seqs += [(first,) + r for r in itertools.product(
                kinds, repeat=2)]
    for seq in seqs:
        for end in (True, False):
            ctx.distinct()
            ctx.case(trace_doc, ctx, seq, step, end,
                     replay=(seq, step, end))
    ctx.scope("documents")
    ctx.sample([first, step])
