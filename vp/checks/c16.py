"""C16 - stringsdict: plurals, inlined format text, round trip, removal."""
from __future__ import unicode_literals

import itertools
import plistlib

from vp.android import NUM, RULES
from vp.core import Violation, expect
from vp.docs import S, compare_stringset, dos, translated

HEAD = ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC "
        "\"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/"
        "PropertyList-1.0.dtd\">\n<plist version=\"1.0\">\n")
FOOT = "\n</plist>\n"
TEXTS = ["%d mouse", "x", " padded ", "a &lt;b&gt; &amp; 'q' \"r\"", "%d\n two",
         "\u03b1\U0001F600", "%1$#@v@", "<![CDATA[<i>]]>", "</"[:0] + "}{"]
PREFIX = ["", "Look! ", " ", "a &lt; b ", "100%% ", "x\n y ", "%d mouse"]
SUFFIX = ["", " there", " and %#@w@.", "@", " 2\n lines\n", "d</string>"[:1]]
KEYS = ["k", "a.b c", "%d files", "\u03b1", "NSString", "&lt;"]
LAYOUTS = {
    "tabs": ("\n\t", "\n\t\t", "\n\t\t\t", "\n\t\t", "\n\t", "\n"),
    "tight": ("", "", "", "", "", ""),
    "lines": ("\n", "\n", "\n", "\n", "\n", "\n"),
    "odd": (" ", "\n\n  ", "\n      ", " ", "", "\n "),
}


class Var(object):
    """One variable of an entry.  order: where the two fixed pairs stand."""

    def __init__(self, name, forms, spec="before", vtype="d"):
        self.name, self.forms, self.spec, self.vtype = name, forms, spec, vtype


class Entry(object):
    """fmt: None or (prefix, variable, suffix); fpos: index among the pairs;
    extra: other pairs [(key, text)] put after the format."""

    def __init__(self, key, vars, fmt=("", "v", ""), fpos=0, empty=False):
        self.key, self.vars, self.fmt, self.fpos = key, vars, fmt, fpos


class File(object):
    def __init__(self, entries, layout="tabs", head=HEAD, foot=FOOT):
        self.entries, self.head, self.foot = entries, head, foot
        self.lay = LAYOUTS[layout]
        self.strings, self.index = [], {}
        for ei, e in enumerate(entries):
            for vi, v in enumerate(e.vars):
                if not any(t.strip() for _, t in v.forms):
                    continue
                pre = suf = ""
                if e.fmt and e.fpos <= vi and e.fmt[1] == v.name:
                    # (several variables may share a name: all get the text)
                    pre, _, suf = e.fmt
                self.index[ei, vi] = len(self.strings)
                self.strings.append(S(
                    e.key, "", {NUM[r]: pre + t + suf for r, t in v.forms},
                    pluralized=True, context=v.name))

    def inlined(self, e):
        # the text stays in place unless a translatable variable takes it in
        return e.fmt is not None and any(
            e.fpos <= vi and v.name == e.fmt[1] and
            any(t.strip() for _, t in v.forms)
            for vi, v in enumerate(e.vars))

    def text(self, forms, keep=lambda i: True, source=False):
        l1, l2, l3, e3, e2, e1 = self.lay
        out = self.head + "<dict>"
        for ei, e in enumerate(self.entries):
            out += "%s<key>%s</key>%s<dict>" % (l1, e.key, l1)
            pairs = []
            for vi, v in enumerate(e.vars):
                i = self.index.get((ei, vi))
                fixed = ["<key>NSStringFormatSpecTypeKey</key>",
                         "<string>NSStringPluralRuleType</string>",
                         "<key>NSStringFormatValueTypeKey</key>",
                         "<string>%s</string>" % v.vtype]
                plural = []
                for r, t in (v.forms if i is None else forms(i, v)):
                    plural += ["<key>%s</key>" % r, "<string>%s</string>" % t]
                if source and v.spec == "after":
                    body = plural + fixed
                elif source and v.spec == "middle":
                    body = fixed[:2] + plural + fixed[2:]
                else:
                    body = fixed + plural
                t = "<key>%s</key>%s<dict>%s%s</dict>" % (
                    v.name, l2, "".join(l3 + x for x in body), e3)
                pairs.append(t if i is None or keep(i) else None)
            if e.fmt is not None:
                pre, var, suf = e.fmt
                if not source and self.inlined(e):
                    pre = suf = ""
                pairs.insert(e.fpos, "<key>NSStringLocalizedFormatKey</key>"
                             "%s<string>%s%%#@%s@%s</string>"
                             % (l2, pre, var, suf))
            for n, p in enumerate(pairs):
                if n == 0:
                    out += l2
                if p is not None:
                    out += (l2 if n else "") + p
            out += e2 + "</dict>"
        return out + e1 + "</dict>" + self.foot

    def source(self):
        return self.text(lambda i, v: v.forms, source=True)

    def has_newline(self):
        # outside the strings: the template's newline style is the file's
        return "\n" in self.text(lambda i, v: [])

    def compiled(self, values, keep=lambda i: True):
        return self.text(
            lambda i, v: [(RULES[r], t) for r, t in values[i].items()], keep)


def bounds(tier):
    return {"texts": TEXTS, "prefixes": PREFIX, "suffixes": SUFFIX,
            "keys": KEYS, "layouts": sorted(LAYOUTS),
            "entries": "all sequences of 1-%d of %d entry kinds"
                       % (4 if tier == "thorough" else 3, len(kinds())),
            "missing": "every subset of the strings",
            "order of the fixed pairs": ["before", "middle", "after"]}


def H():
    from openformats.formats.stringsdict import StringsDictHandler
    return StringsDictHandler()


TRANS = [lambda i: {5: "T%d" % i},
         lambda i: {1: "&lt;%d" % i, 3: "few \\1", 5: "o\n{}"}]


def trace(ctx, f, exact=True):
    for conv in (lambda t: t, dos)[:1 + f.has_newline()]:
        src = conv(f.source())
        ctx.step()
        tmpl, got = H().parse(src)
        compare_stringset(got, f.strings, src)
        for s in got:
            expect(tmpl.count(s.template_replacement), 1,
                   "placeholders in the template", source=src, template=tmpl)
        vals = [s.value for s in f.strings]
        # white space around a variable that is not translatable is free when
        # a neighbour is removed
        blank = len(f.strings) < sum(len(e.vars) for e in f.entries)
        ctx.step()
        out = H().compile(tmpl, iter(got))
        want = conv(f.compiled(vals))
        same(out, want, exact, "compiling the unchanged strings", src)
        ctx.outcome(out)
        for t in TRANS:
            vals = [t(i) for i in range(len(got))]
            objs = [translated(got, i, v) for i, v in enumerate(vals)]
            for mask in range(2 ** len(objs)):
                keep = lambda i: bool(mask >> i & 1)
                ctx.step()
                out = H().compile(
                    tmpl, [o for i, o in enumerate(objs) if keep(i)])
                same(out, conv(f.compiled(vals, keep)),
                     exact and (not blank or mask == 2 ** len(objs) - 1),
                     "compiling translations", src,
                     present=[(o.key, o.context)
                              for i, o in enumerate(objs) if keep(i)])
                ctx.outcome(out)


def same(out, want, exact, what, src, **kw):
    if exact:
        expect(out, want, what, source=src, **kw)
    a, b = plist(out), plist(want)
    if a != b:
        raise Violation(what + " (as a property list)", got=out, want=want,
                        source=src, **kw)


def plist(text):
    # comments and headers are of no interest; plistlib wants bytes
    body = text[text.index("<dict"):text.rindex("</dict>") + 7]
    return plistlib.loads(("<plist version=\"1.0\">%s</plist>" % body)
                          .encode("utf-8"))


def v(name="v", a="%d mouse", b="%d mice", **kw):
    return Var(name, [("one", a), ("other", b)], **kw)


def kinds():
    return [
        lambda i: Entry("k%d" % i, [v()]),
        lambda i: Entry("k%d" % i, [v(b=TEXTS[i])],
                        ("Look! ", "v", " there")),
        lambda i: Entry("k%d" % i, [v(), v("w", "x", TEXTS[i + 3])],
                        ("", "v", " and %#@w@.")),
        lambda i: Entry("k%d" % i, [v("w"), v()], ("Both ", "v", " %#@w@")),
        lambda i: Entry("k%d" % i, [v(spec="after")], fpos=1),
        lambda i: Entry("k%d" % i, [v("w", "", " ")], None),
        lambda i: Entry("k%d" % i, [], ("Look! %d ", "v", "")),
        lambda i: Entry("k%d" % i, [v(a="", b=" "), v("w")],
                        ("Look! ", "v", " \n%#@w@")),
        lambda i: Entry("k%d" % i, [v(spec="middle"), v("w", spec="before")],
                        None),
    ]


def canonical(f):
    return all(x.spec == "before" for e in f.entries for x in e.vars)


def run(ctx, f):
    src = f.source()
    if ctx.state(src):
        ctx.case(trace, ctx, f, canonical(f), replay={"source": src})
    return src


def shards(tier):
    n = len(kinds())
    out = [("seq", i, j) for i in range(n) for j in range(n)]
    out += [("fmt", i, j) for i in range(len(PREFIX))
            for j in range(len(SUFFIX))]
    out += [("text", i, 0) for i in range(len(TEXTS))]
    out += [("key", i, 0) for i in range(len(KEYS))]
    return out


def explore(ctx, shard):
    fam, i, j = shard
    ks = kinds()
    if fam == "seq":
        for r in range(0, 3 if ctx.thorough else 2):
            for rest in itertools.product(range(len(ks)), repeat=r):
                seq = (i, j) + rest
                for lay in sorted(LAYOUTS):
                    for off in range(2):
                        src = run(ctx, File([ks[k](n + off) for n, k
                                             in enumerate(seq)], lay))
        if i == j:
            for lay in sorted(LAYOUTS):
                for off in range(5):
                    run(ctx, File([ks[i](off)], lay))
                    run(ctx, File([ks[i](off)], lay, "<plist>", "</plist>"))
        ctx.sample(src)
    elif fam == "fmt":
        for lay in sorted(LAYOUTS):
            fmt = (PREFIX[i], "v", SUFFIX[j])
            for vs in ([v()], [v(), v("w")], [v("w"), v()],
                       [v("w"), v(), v("x1")], [v(), v("wv")],
                       [v("vw"), v(), v("V")]):
                for sp in ("before", "after", "middle"):
                    for x in vs:
                        x.spec = sp
                    run(ctx, File([Entry("k", vs, fmt), Entry("l", vs)], lay))
                    run(ctx, File([Entry("j", [], (PREFIX[i], "z",
                                                   SUFFIX[j])),
                                   Entry("k", vs, fmt)], lay))
    elif fam == "text":
        for t in TEXTS:
            for lay in sorted(LAYOUTS):
                run(ctx, File([Entry("k", [v(a=TEXTS[i], b=t)])], lay))
                run(ctx, File([Entry("k", [v(a=TEXTS[i], b=t)],
                                     ("p ", "v", " s"))], lay))
        for r in range(6):
            for rules in itertools.combinations(RULES[:5], r):
                for full in (list(rules) + ["other"],
                             ["other"] + list(rules)):
                    for vtype in ("d", "lu", "@"):
                        run(ctx, File([Entry("k", [Var("v", [
                            (x, TEXTS[(n + i) % len(TEXTS)])
                            for n, x in enumerate(full)], vtype=vtype)],
                            ("p ", "v", ""))]))
    elif fam == "key":
        for k2 in KEYS:
            if k2 == KEYS[i]:
                continue
            for lay in sorted(LAYOUTS):
                run(ctx, File([Entry(KEYS[i], [v("one"), v("other")],
                                     ("a ", "one", "")),
                               Entry(k2, [v("k")], ("", "k", " b"))], lay))
