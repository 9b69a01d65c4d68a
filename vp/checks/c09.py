"""C09 - ARB resources: entries, their @metadata, and what is left alone."""
from __future__ import unicode_literals

import itertools

from vp import icu, jsonmodel as J
from vp.core import Violation, expect
from vp.docs import Doc, S, check_doc, dos, translated

LAYS = ["tight", "space", "lines", "ragged"]
KEYS = ["a", "b.c", "d\\\\e", "x@src", "\u03b1"]
TEXTS = ["v", 'q\\"\\n', " pad ", "{n, select, a {b}}"]
NUMERIC = dict(kw="n", forms=[("=0", "none"), ("=1", "#"), ("=2", "two"),
                              ("other", "{n} x")])
NUMERIC2 = dict(kw="n", forms=[("=1", "#"), ("few", "f"), ("other", "o")])


def bounds(tier):
    return {
        "entries": "1-3 resources out of %d values x %d metadata shapes, "
                   "metadata before / after / separate from its resource, "
                   "globals (@@locale, @@context) first, last or absent" % (
                       len(values()), len(metas())),
        "keys": KEYS, "layouts": LAYS, "newlines": ["UNIX", "DOS"],
        "language codes": ["el", "pt_BR"],
        "translations": "all / each single string / all plural rule sets",
        "kept": "all subsets of the strings at sync and compile time",
    }


def pl(v):
    s = J.Str(v.raw)
    s.icu = v
    return s


def values():
    ic = icu.variants()
    # a plural with a blank form is left alone
    blank = J.Str("{n, plural, one {} other {x}}")
    blank.skip = True
    blank2 = J.Str("{n, plural, =1 { } other {x}}")
    blank2.skip = True
    return ([J.Str(t) for t in TEXTS] +
            [pl(ic[0]), pl(ic[2]), pl(ic[3]), pl(icu.Icu(**NUMERIC)),
             pl(icu.Icu(**NUMERIC2)), blank, blank2,
             J.Str(""), J.Str("  "), J.Lit("1"), J.Lit("null"),
             J.Obj([("n", J.Str("nested")), ("description", J.Str("x"))]),
             J.Arr([J.Str("item"), J.Obj([("k", J.Str("y"))])])])


def metas():
    return [
        None,
        J.Obj([]),
        J.Obj([("description", J.Str("note"))]),
        J.Obj([("type", J.Str("text")), ("description", J.Str("d , }")),
               ("context", J.Str("ctx"))]),
        J.Obj([("context", J.Str("c2")), ("type", J.Str("image")),
               ("description", J.Str("z"))]),
        J.Obj([("placeholders", J.Obj([
            ("n", J.Obj([("type", J.Str("int")),
                         ("description", J.Str("inner")),
                         ("context", J.Str("inner"))]))]))]),
        J.Obj([("placeholders", J.Arr([J.Str("n"), J.Str("m")])),
               ("description", J.Str("after list"))]),
        J.Obj([("type", J.Str("css"))]),
    ]


def child(node, name):
    if node is None:
        return None
    return next((v for k, v in node.items if k == name), None)


def build(root, layout, locale=None):
    top = dict(root.items)
    strings = []

    def on_str(path, n):
        if len(path) != 1:
            return [n.raw]
        key = path[0][1]
        if key == "@@locale" and locale:
            return [locale]
        if key.startswith("@") or not n.raw.strip() or \
                getattr(n, "skip", False):
            return [n.raw]
        m = top.get("@" + key)
        t = child(m, "type")
        if t is not None and t.raw != "text":
            return [n.raw]
        d, c = child(m, "description"), child(m, "context")
        i = len(strings)
        attrs = {"developer_comment": d.raw if d else "",
                 "context": c.raw if c else ""}
        v = getattr(n, "icu", None)
        if v is None:
            strings.append(S(J.esc_key(key), n.raw, **attrs))
            return [i]
        strings.append(S(J.esc_key(key), v.region, v.value, icu.render,
                         pluralized=True, **attrs))
        return [v.prefix, i, v.suffix]
    return Doc(J.emit(root, layout, on_str), strings)


def t_all(i, s):
    if s.pluralized:
        return {1: "x%d" % i, 3: "", 5: "{cnt} \\\\1, }"}
    return 'T%d \\", }' % i


def t_one(k):
    def t(i, s):
        return ({5: "o"} if s.pluralized else "new") if i == k else s.value
    return t


def new():
    from openformats.formats.json import ArbHandler
    return ArbHandler()


def trace(ctx, root, layout):
    from openformats.exceptions import ParseError
    doc = build(root, layout)
    if not doc.strings:
        ctx.step()
        try:
            new().parse(doc.source())
        except ParseError:
            return
        raise Violation("a file without strings was accepted",
                        source=doc.source())
    n = len(doc.strings)
    tmpl, got = check_doc(ctx, new, doc, [t_all] + [t_one(k)
                                                    for k in range(n)])
    vals = [t_all(i, s) for i, s in enumerate(doc.strings)]
    objs = [translated(got, i, v) for i, v in enumerate(vals)]
    for code in ("el", "pt_BR"):
        loc = build(root, layout, code)
        for text, conv in ((tmpl, lambda t: t), (dos(tmpl), dos)):
            ctx.step()
            out = new().compile(text, iter(objs),
                                language_info={"code": code})
            expect(out, conv(loc.compiled(vals)), "compiling for a language",
                   template=text, code=code)
            ctx.outcome(out)
    for r in range(n):
        for keep in itertools.combinations(range(n), r):
            ctx.step(2)
            kept = [got[i] for i in keep]
            expect(new().sync_template(tmpl, iter(kept)), tmpl,
                   "syncing touched an ARB template", kept=keep)


def entry_docs(thorough):
    vs, ms = values(), metas()
    # one resource: every value x metadata x key x arrangement
    for i, v in enumerate(vs):
        for j, m in enumerate(ms):
            for k, key in enumerate(KEYS):
                for arr in range(5 if m is not None else 2):
                    yield arrange([(key, v, m)], arr)
    # two resources
    for n, ((i, v), (j, w)) in enumerate(itertools.product(
            enumerate(vs), repeat=2)):
        for a in range(len(ms)):
            b = (a * 3 + i + j) % len(ms)
            e = [(KEYS[n % 5], v, ms[a]), (KEYS[(n + 1 + a % 3) % 5], w,
                                           ms[b])]
            yield arrange(e, (n + a) % 5)
    sub = [vs[q] for q in (0, 4, 7, 9, 11, 14)]
    for n, c in enumerate(itertools.product(sub, repeat=3)):
        for a in range(len(ms) if thorough else 3):
            e = [(KEYS[(n + q) % 5], v, ms[(a + n + q * 3) % len(ms)])
                 for q, v in enumerate(c)]
            yield arrange(e, (n + a) % 5)


def arrange(entries, how):
    """Metadata after (0), before (1), all at the end (2), all at the start
    (3), none of the globals (4)."""
    glob = [("@@locale", J.Str("en_US")), ("@@context", J.Str("Home, }"))]
    main = [(k, v) for k, v, m in entries]
    meta = [("@" + k, m) for k, v, m in entries if m is not None]
    inter = []
    for k, v, m in entries:
        pair = [(k, v)] + ([("@" + k, m)] if m is not None else [])
        inter += pair[::-1] if how == 1 else pair
    if how == 0:
        items = glob + inter
    elif how == 1:
        items = inter + glob[:1]
    elif how == 2:
        items = glob[:1] + main + meta
    elif how == 3:
        items = meta + main
    else:
        items = inter
    return J.Obj(items)


NP = 64


def shards(tier):
    return list(range(NP))


def explore(ctx, part):
    for i, root in enumerate(entry_docs(ctx.thorough)):
        if i % NP != part:
            continue
        for layout in LAYS:
            if not ctx.state((root.key(), layout)):
                continue
            ctx.case(trace, ctx, root, layout,
                     replay={"text": J.text(root, layout)})
    ctx.sample(J.text(root, "space"))
