"""C10 - ICU plural messages: split, put back, rejected when malformed."""
from __future__ import unicode_literals

import itertools
import json

from vp import icu
from vp.core import Violation, expect
from vp.docs import Doc, S, check_doc

KWS = ["cnt", "plural", "n-1", "one", "Item_2", "0"]
TEXTS = ["a", "", " ", "# {x}", "it's", "''", "{a {b} c}", "one {x}",
         "other {x}", "\\n", "\\\"q\\\"", "\u03b1, plural,", "a}b{c"[:1],
         "{x}{y}", "\\\\"]
LAYOUT = dict(w1=["", " "], w2=["", " ", "  "], gap=["", " "],
              sep=[" ", "", "  ", " \\n "], tail=["", " ", "\\n"],
              lead=["", " "], trail=["", " "])
BASE = [
    [("one", "# a"), ("other", "{n} b")],
    [("other", "x")],
    [("other", "o"), ("one", "1"), ("zero", "")],
    [(r, r.upper()) for r in icu.RULES],
]
FEW_LAYOUTS = [dict(), dict(w1=" ", gap="", sep=""), dict(w2="", sep="  ",
               tail=" "), dict(lead=" ", trail=" ", tail="\\n", sep=" \\n ")]
# Accepted as the empty probe list of known defects: (name, message, forms)
PROBES = [
    ("escaped-newline-directly-before-rule",
     "{n, plural, one {a}\\nother {b}}", {1: "a", 5: "b"}),
    ("escaped-tab-directly-before-rule",
     "{n, plural, one {a}\\tother {b}}", {1: "a", 5: "b"}),
    ("numeric-rule-syntax-inside-a-form",
     "{n, plural, one {=1 {x}} other {b}}", {1: "=1 {x}", 5: "b"}),
]


def bounds(tier):
    return {
        "layout product": LAYOUT, "argument names": KWS,
        "rules": "all ordered selections of 1-3 of the 6 rules, all 6",
        "texts": TEXTS,
        "texts per message": "all pairs; triples over 6",
        "handlers": ["KEYVALUEJSON", "CHROME_V3", "ARB (also =0 =1 =2)",
                     "STRUCTURED_JSON"],
        "malformed": "every single brace deleted or doubled, unknown rule "
                     "names, stray text between forms",
    }


def handlers():
    from openformats.formats import json as fj
    return [
        ("JsonHandler", '{"k": "', '"}', "k"),
        ("ChromeI18nHandlerV3", '{"k": {"message": "', '"}}', "k"),
        ("ArbHandler", '{"k": "', '"}', "k"),
        ("StructuredJsonHandler", '{"k": {"string": "', '"}}', "k"),
    ]


def factory(name):
    from openformats.formats import json as fj
    return getattr(fj, name)


def trans(i, s):
    if not s.pluralized:
        return "t"
    return {0: "z {", 5: "t} {x}"}


def trace(ctx, m):
    for name, a, b, key in handlers():
        numeric = any(r.startswith("=") for r, _ in m.forms)
        blank = any(not t.strip() for _, t in m.forms)
        if name == "ArbHandler" and blank:
            continue
        if numeric and name != "ArbHandler":
            s, seg = S(key, m.raw), [a, 0, b]
        else:
            s = S(key, m.region, m.value, icu.render, pluralized=True)
            seg = [a + m.prefix, 0, m.suffix + b]
        check_doc(ctx, factory(name), Doc(seg, [s]), [trans])


def reject(ctx, text, must):
    """A damaged message is rejected or taken as ordinary text; it is never
    split into forms."""
    from openformats.exceptions import ParseError
    for name, a, b, key in handlers():
        ctx.step()
        src = a + text + b
        try:
            tmpl, got = factory(name)().parse(src)
        except ParseError:
            ctx.outcome((name, "rejected"))
            continue
        if must:
            raise Violation("malformed plural message accepted",
                            handler=name, text=text,
                            got=[g.string for g in got])
        if len(got) != 1 or got[0].pluralized or got[0].string != text:
            raise Violation("malformed plural message split", handler=name,
                            text=text, got=[g.string for g in got])
        ctx.outcome((name, "text"))


def probe(ctx, text, forms):
    for name, a, b, key in handlers()[:1]:
        ctx.step()
        _, got = factory(name)().parse(a + text + b)
        expect(got[0].string, forms, "plural forms", text=text)


def messages(shard):
    fam = shard[0]
    if fam == "layout":
        kw = KWS[shard[1]]
        names = sorted(LAYOUT)
        for vals in itertools.product(*[LAYOUT[n] for n in names]):
            for base in BASE:
                yield icu.Icu(kw, base, **dict(zip(names, vals)))
    elif fam == "rules":
        lay = FEW_LAYOUTS[shard[1]]
        for r in (1, 2, 3):
            for rules in itertools.permutations(icu.RULES, r):
                for off in range(3):
                    yield icu.Icu("cnt", [
                        (x, TEXTS[(off * 5 + i * 3) % len(TEXTS)])
                        for i, x in enumerate(rules)], **lay)
        for rules in itertools.permutations(icu.RULES, 6):
            yield icu.Icu("n", [(x, x[0]) for x in rules], **lay)
    elif fam == "texts":
        lay = FEW_LAYOUTS[shard[1]]
        for t, u in itertools.product(TEXTS, repeat=2):
            yield icu.Icu("cnt", [("one", t), ("other", u)], **lay)
            yield icu.Icu("cnt", [("few", t), ("many", u)], **lay)
        for t in itertools.product(TEXTS[:8:1][::1][2:8], repeat=3):
            yield icu.Icu("cnt", list(zip(("zero", "one", "other"), t)),
                          **lay)
    elif fam == "numeric":
        lay = FEW_LAYOUTS[shard[1]]
        for r in (1, 2, 3):
            for rules in itertools.permutations(["=0", "=1", "=2"], r):
                for rest in ([("other", "o {x}")],
                             [("few", "f"), ("other", "o")]):
                    for off in range(len(TEXTS)):
                        yield icu.Icu("cnt", [
                            (x, TEXTS[(off + i) % len(TEXTS)])
                            for i, x in enumerate(rules)] + rest, **lay)


def shards(tier):
    out = [("layout", i) for i in range(len(KWS))]
    for fam in ("rules", "texts", "numeric", "bad"):
        out += [(fam, i) for i in range(len(FEW_LAYOUTS))]
    return out + [("probe", 0)]


def explore(ctx, shard):
    if shard[0] == "probe":
        for name, text, forms in PROBES:
            ctx.state(text)
            ctx.case(probe, ctx, text, forms, signature="C10:" + name)
        return
    if shard[0] == "bad":
        lay = FEW_LAYOUTS[shard[1]]
        for base in BASE[:3] + [[("one", "{a} b"), ("other", "c {d} e")],
                                [("one", "a"), ("few", "{x {y}}"),
                                 ("other", "b")]]:
            m = icu.Icu("cnt", base, **lay)
            for i, c in enumerate(m.raw):
                if c in "{}":
                    t = m.raw[:i] + m.raw[i + 1:]
                    ctx.state(t)
                    ctx.case(reject, ctx, t, False)
                    t = m.raw[:i] + c + m.raw[i:]
                    if c == "{" and i > 1:
                        ctx.state(t)
                        ctx.case(reject, ctx, t, True)
            for bad in ("on", "others", "One", "=3", "1", "two2", "ONE"):
                for j in range(len(base) + 1):
                    b2 = base[:j] + [(bad, "x")] + base[j:]
                    t = icu.Icu("cnt", b2, **lay).raw
                    ctx.state(t)
                    ctx.case(reject, ctx, t, True)
            for stray in (",", "x", "}", ";"):
                for j in range(len(base) + 1):
                    forms = ["%s {%s}" % f for f in base]
                    forms.insert(j, stray)
                    t = m.prefix + " ".join(forms) + m.suffix
                    ctx.state(t)
                    # a closing brace ends the message early
                    ctx.case(reject, ctx, t, stray != "}")
        ctx.sample({"malformed": t})
        return
    for i, m in enumerate(messages(shard)):
        if not ctx.state(m.raw):
            continue
        ctx.case(trace, ctx, m, replay={"message": m.raw})
        if i == 50:
            ctx.sample(m.raw)
