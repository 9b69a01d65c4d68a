"""Markdown: token sequences and structured blocks shared by C22 and C23."""
from __future__ import unicode_literals

import itertools
import re

from vp.core import Violation, expect
from vp.docs import Doc, S, dos, translated

TOKENS = ["a", "\n", "\n\n", "# ", "- ", "  ", "    ", "> ", "```\n", "`",
          "|", "---", "[x]: u", "1. ", "* ", "<b>", "<p>", "{%", "%}", "12",
          "[!NOTE]"]


def normalised(src):
    """What the format keeps of a file: tabs become spaces, lines of spaces
    become empty."""
    return re.sub(r"(?m)^ +$", "", src.expandtabs(4))


PLACEHOLDER = re.compile(r"[0-9a-f]{32}_tr")


def soup(ctx, new, src, keys=True, norm=normalised):
    """The guarantees that hold for any text."""
    want = norm(src)
    base = None
    for conv in (lambda t: t, dos):
        if conv is dos and "\n" not in src:
            continue
        ctx.step(3)
        h = new()
        tmpl, got = h.parse(conv(src))
        got = list(got)
        # the template tells the style of the newlines
        expect(h.compile(tmpl, list(got)),
               conv(want) if "\n" in tmpl else want,
               "compiling the unchanged strings", source=src, template=tmpl)
        if keys:
            expect([g.key for g in got],
                   ["%d" % i for i in range(len(got))], "keys", source=src)
        expect(PLACEHOLDER.findall(tmpl),
               [g.template_replacement for g in got],
               "placeholders of the template", source=src, template=tmpl)
        for g in got:
            if not g.string.strip():
                raise Violation("empty string extracted", source=src)
        if base is None:
            base = [g.string for g in got]
        else:
            expect([g.string for g in got], base,
                   "strings of the file with Windows newlines", source=src)
        vals = ["T%d" % i for i in range(len(got))]
        out = new().compile(
            tmpl, [translated(got, i, v) for i, v in enumerate(vals)])
        it = iter(vals)
        expect(out, PLACEHOLDER.sub(lambda m: next(it), tmpl),
               "compiling a translation", source=src, template=tmpl)
        ctx.outcome(out)


# -- structured blocks ------------------------------------------------------
# every block: name -> segments; strings are (text,) tuples

def blocks(a, b):
    return {
        "para": [(a,)],
        "two lines": [(a + "\n" + b,)],
        "hard break": [(a + "  \n" + b,)],
        "atx": ["# ", (a,)],
        "atx3": ["### ", (a + " " + b,)],
        "atx hash": ["## ", ("C# " + a,)],
        "setext": [(a + "\n===",)],
        "setext2": [(b + "\n---",)],
        "list": ["- ", (a,), "\n- ", (b,)],
        "star": ["* ", (a,), "\n* 12\n* ", (a,)],
        "loose": ["- ", (a,), "\n\n- ", (b,)],
        "nested": ["- ", (a,), "\n  - ", (b,), "\n    - ", (a,), "\n- ",
                   (b,)],
        "numbered": ["1. ", (a,), "\n2. ", (b,)],
        "item paragraphs": ["- ", (a,), "\n\n  ", (b,)],
        "quote": [("> " + a,)],
        "quote lines": [("> " + a + "\n> " + b,)],
        "fence": [("```\n" + a + "\n\n" + b + "\n```",)],
        "fence lang": [("~~~js\n" + a + "\n~~~",)],
        "code": [("    " + a + "\n      " + b,)],
        "inline html": [("<b>" + a + "</b>",)],
        "html": [("<div>\n" + a + "\n</div>",)],
        "comment": [("<!-- " + a + " -->",)],
        "reference": ["[", (a,), "]: http://" + a],
        "numbered reference": ["[1]: http://" + a],
        "liquid": ["{% " + a + " %}"],
        "liquid value": [("{{ " + a + " }}",)],
        "number": ["12"],
        "rule": [("***",)],
        "table": ["| ", (a,), " | ", (b,), " |\n| --- | :-: |\n| ", (b,),
                  " | 12 |\n| - | ", (a,), " |"],
        "open table": [(a,), " | ", (b,), "\n--- | ---\n", (b,), " | ",
                       (a,)],
        "dash table": ["| ", (a,), " | ", (b,), " |\n| --- | :-: |\n| ",
                       ("-",), " | ", (":-",), " |"],
        "dash open table": [(a,), " | ", (b,), "\n--- | :-\n", ("--",),
                            " | ", ("-",)],
        "footnote": ["[^1]: ", (a,)],
        "image": [("![" + a + "](" + b + ")",)],
    }


# a cell made of dashes is extracted too: its placeholder must not be put in
# the line of dashes above it
def _table(segs):
    out = []
    for s in segs:
        if s == " | 12 |\n| - | ":
            out += [" | 12 |\n| ", ("-",), " | "]
        else:
            out.append(s)
    return out


NAMES = sorted(blocks("a", "b"))
# what follows them with an indentation belongs to them
OPEN = {"list", "star", "loose", "nested", "numbered", "item paragraphs",
        "footnote"}
CORE = ["para", "atx", "nested", "quote", "fence", "liquid", "table",
        "reference", "numbered reference", "number", "list", "code"]
TEXTS = [("a", "b c"), ("b c", "a"), ("12 a", "a")]


def instance(name, texts):
    return _table(blocks(*texts)[name])


def legal(names, header=()):
    if header and names[0] == "code":
        return False        # the end of the header takes in blanks
    if names.count("footnote") > 1:
        return False        # the same footnote twice
    for x, y in zip(names, names[1:]):
        if x in OPEN and y == "code":
            return False
        if x == y == "code":
            return False
        if "quote" in x and "quote" in y:
            return False    # they are one quote
    return True


def build(parts, header=(), sep="\n\n", end="\n"):
    """parts: lists of segments, header: segments of the front matter whose
    strings are S objects or (text,) tuples"""
    segs, strings = [], []

    def put(items):
        for s in items:
            if isinstance(s, tuple):
                s = S(None, s[0])
            if isinstance(s, S):
                if s.key is None:
                    s.key = "%d" % len(strings)
                segs.append(len(strings))
                strings.append(s)
            else:
                segs.append(s)
    put(header)
    for n, p in enumerate(parts):
        if n:
            segs.append(sep)
        put(p)
    segs.append(end)
    return Doc(segs, strings)
