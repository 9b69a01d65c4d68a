"""C05 - key-value JSON: extraction, placeholders, round trip, translation."""
from __future__ import unicode_literals

import itertools

from vp import icu, jsonmodel as J
from vp.docs import Doc, S, check_doc

TEXTS = ["a", 'q\\"t\\"', "\\n", "\\\\", " pad ", "\u03b1\U0001f600", "],",
         "{x}", "{n, select, a {b} other {c}}", "{n, plural, =1 {x} other {y}}",
         "see {n, plural, one {a} other {b}}", "{cnt, plural}", "%s $1 \\\\g<0>",
         "\\u0041", "0", "null"]
BLANKS = ["", " ", "   "]
LITS = ["null", "true", "1", "-1.5e+3"]
KEYS = ["a", "b.c", "", "\\\\", '\\"', "d\\\\.e", "\u03b1 x", "{,", "..0..",
        "a.b"]
LAYS = sorted(J.LAYOUTS)


def leaf_atoms():
    out = [J.Str(t) for t in TEXTS] + [J.Str(t) for t in BLANKS]
    out += [J.Lit(t) for t in LITS]
    for v in icu.variants():
        n = J.Str(v.raw)
        n.icu = v
        out.append(n)
    return out


def bounds(tier):
    return {
        "values": TEXTS + BLANKS + LITS + [v.raw for v in icu.variants()],
        "keys": KEYS, "layouts": LAYS,
        "documents": "flat objects/lists with <=2 values (all), 3 values over "
                     "8 leaves; all trees of depth 2 with <=2 children over "
                     "%d leaves%s" % (3 if tier == "quick" else 4,
                                      "" if tier == "quick" else
                                      ", each again inside one container"),
        "newlines": ["UNIX", "DOS"],
        "translations": "identity; every string changed; every single string "
                        "changed; texts with backslash/brace/percent "
                        "metacharacters; the placeholder of another string; "
                        "plural rule sets {other}, {one,few,many,other}",
    }


def build(node, layout):
    strings = []

    def on_str(path, n):
        if not n.raw.strip():
            return [n.raw]
        i = len(strings)
        v = getattr(n, "icu", None)
        if v is not None:
            strings.append(S(J.kv_key(path), v.region, v.value, icu.render,
                             pluralized=True))
            return [v.prefix, i, v.suffix]
        strings.append(S(J.kv_key(path), n.raw))
        return [i]
    segs = J.emit(node, layout, on_str)
    doc = Doc(segs, strings)
    doc.roundtrip_value = None
    return doc


NASTY = ['\\\\1 \\\\g<0> $1 %s {0} {}', '\\"], {,', ",  }"]


def t_all(i, s):
    if s.pluralized:
        return {1: "x%d" % i, 3: "{cnt} \\\\1", 4: "", 5: "y{%d}" % i}
    return "T%d %s" % (i, NASTY[i % len(NASTY)])


def t_one(k):
    def t(i, s):
        if i != k:
            return s.value
        return {5: "o"} if s.pluralized else "new"
    return t


def t_rev(i, s):
    if s.pluralized:
        return dict(reversed(list(s.value.items())))
    return ""


def t_ph(doc):
    import hashlib

    def ph(j):
        s = doc.strings[j]
        h = hashlib.md5(("%s:%s" % (s.key, s.attrs["context"])).encode(
            "utf-8")).hexdigest()
        return h + ("_pl" if s.pluralized else "_tr")

    def t(i, s):
        other = ph((i + 1) % len(doc.strings))
        return {5: other} if s.pluralized else other
    return t


def translations(doc):
    n = len(doc.strings)
    out = [t_all, t_rev]
    if n > 1:
        out += [t_one(k) for k in range(n)] + [t_ph(doc)]
    return out


def new():
    from openformats.formats.json import JsonHandler
    return JsonHandler()


def mk(kind, children, off=0):
    if kind == "arr":
        return J.Arr(children)
    return J.Obj([(KEYS[(off + i) % len(KEYS)], c)
                  for i, c in enumerate(children)])


def small():
    at = leaf_atoms()
    return [at[0], J.Lit("1"), J.Str(""), at[-7], at[1], J.Lit("null"),
            at[5], at[-5]]


def shards(tier):
    n = len(leaf_atoms())
    for kind in ("obj", "arr"):
        for i in range(n):
            yield ("flat", kind, i)
        for i in range(8):
            yield ("flat3", kind, i)
    for p in range(96):
        yield ("tree", 3 if tier == "quick" else 4, p)


def docs(shard, thorough):
    if shard[0] == "flat":
        at = leaf_atoms()
        first = at[shard[2]]
        for off in range(len(KEYS)):
            yield mk(shard[1], [first], off)
        for j, second in enumerate(at):
            yield mk(shard[1], [first, second], j)
    elif shard[0] == "flat3":
        sm = small()
        for c in itertools.product(sm, repeat=2):
            yield mk(shard[1], [sm[shard[2]]] + list(c), shard[2])
    else:
        from vp.checks.c03 import level as _  # noqa: F401
        leaves = small()[:shard[1]]

        def level(pool):
            yield J.Obj([])
            yield J.Arr([])
            for kind in ("obj", "arr"):
                for i, c in enumerate(pool):
                    yield mk(kind, [c], i)
                for i, c in enumerate(itertools.product(pool, repeat=2)):
                    yield mk(kind, list(c), i)
        t1 = list(level(leaves))
        for i, t in enumerate(level(leaves + t1)):
            if i % 96 != shard[2]:
                continue
            yield t
            if thorough:
                yield mk("obj", [t, leaves[0]], i)
                yield mk("arr", [leaves[0], t], i)


def trace(ctx, node, layout):
    doc = build(node, layout)
    check_doc(ctx, new, doc, translations(doc))


def explore(ctx, shard):
    for n, node in enumerate(docs(shard, ctx.thorough)):
        lays = LAYS
        if shard[0] == "tree" and not ctx.thorough:
            lays = ["tight", "ragged"]
        for layout in lays:
            if not ctx.state((node.key(), layout)):
                continue
            ctx.case(trace, ctx, node, layout,
                     replay={"text": J.text(node, layout)})
        if n == 20:
            ctx.sample(J.text(node, "lines"))
