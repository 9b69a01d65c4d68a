"""C07 - structured JSON: metadata travels with the string, both ways."""
from __future__ import unicode_literals

import itertools
import json

from vp import icu, jsonmodel as J
from vp.core import Violation, expect
from vp.docs import Doc, S, check_doc, dos

LAYS = ["tight", "space", "lines", "ragged"]
STRS = ["v", 'q\\"\\n', "{, }"]
META = {
    "context": [J.Str("ctx"), J.Str('c\\"\\\\'), J.Str(""), J.Lit("null")],
    "developer_comment": [J.Str("note"), J.Str("l1\\nl2"), J.Str(""),
                          J.Lit("null")],
    "character_limit": [J.Lit("100"), J.Lit("null"), J.Lit("0")],
    "extra": [J.Str("x"), J.Lit("1"), J.Lit("true"), J.Lit("null"), J.Obj([]),
              J.Arr([J.Str("z")]),
              J.Obj([("string", J.Str("no")), ("context", J.Str("k"))])],
}
IGNORED = [J.Str("plain"), J.Lit("1"), J.Lit("null"), J.Arr([]),
           J.Arr([J.Str("x")]), J.Arr([J.Lit("2"), J.Arr([])]),
           J.Arr([J.Obj([("string", J.Str("no"))])]), J.Obj([])]
UPDATES = [
    {"context": "", "developer_comment": "", "character_limit": None},
    {"context": 'new "c"', "developer_comment": "", "character_limit": 7},
    {"context": "", "developer_comment": "new\n\\n", "character_limit": None},
    {"context": "k", "developer_comment": "d", "character_limit": 12},
]


def bounds(tier):
    return {
        "payloads": "every order of every set of payload keys (string plus "
                    "<=3 of context, developer_comment, character_limit, an "
                    "unknown key), every value of the alphabet",
        "alphabet": {k: [J.text(n, "tight") for n in v]
                     for k, v in META.items()},
        "structure": "1-3 entries in a root object or list item; nested "
                     "objects; ignored values %r" % [
                         J.text(n, "tight") for n in IGNORED],
        "metadata updates at compile time": UPDATES,
        "layouts": LAYS, "newlines": ["UNIX", "DOS"],
        "sync": "all subsets of <=3 strings, 0-2 added strings, twice",
    }


def new():
    from openformats.formats.json import StructuredJsonHandler
    return StructuredJsonHandler()


def string_node(raw):
    return J.Str(raw)


def payloads(thorough):
    ic = icu.variants()
    names = sorted(META)
    for r in range(0, 4):
        for combo in itertools.combinations(names, r):
            if r == 3 and not thorough:
                valsets = [[META[c][i % len(META[c])] for c in combo]
                           for i in range(4)]
            else:
                valsets = itertools.product(*[META[c] for c in combo])
            for n, vals in enumerate(valsets):
                items = list(zip(combo, vals))
                for pos in itertools.permutations(range(r + 1)):
                    base = items + [("string", None)]
                    order = [base[p] for p in pos]
                    yield order, (n + r + pos[0])


def leaf(order, n):
    ic = icu.variants()
    raw = STRS[n % 3]
    node = J.Str(raw)
    if n % 4 == 3:
        v = ic[n % len(ic)]
        node = J.Str(v.raw)
        node.icu = v
    return J.Obj([(k, node if v is None else v) for k, v in order])


def is_leaf(node):
    return node.kind == "obj" and any(k == "string" for k, _ in node.items)


def child(node, name):
    return next((v for k, v in node.items if k == name), None)


def build(root, layout):
    """Doc with the expected stringset; metadata decoded from the payload."""
    leaves = {}

    def scan(n, path):
        if n.kind == "arr" and path == ():
            for i, c in enumerate(n.items):
                scan(c, path + (("i", i),))
        elif n.kind == "arr" and all(k == "i" for k, _ in path):
            for i, c in enumerate(n.items):
                scan(c, path + (("i", i),))
        elif n.kind == "obj":
            for k, c in n.items:
                p = path + (("k", k),)
                if c.kind == "obj":
                    s = child(c, "string")
                    if s is not None:
                        leaves[p + (("k", "string"),)] = (p, c)
                    else:
                        scan(c, p)
    scan(root, ())
    strings = []

    def on_str(path, n):
        hit = leaves.get(path)
        if hit is None or not n.raw.strip():
            return [n.raw]
        p, payload = hit

        def meta(name, empty):
            m = child(payload, name)
            return empty if m is None else (J.value(m) or empty)
        attrs = {"context": meta("context", ""),
                 "developer_comment": meta("developer_comment", ""),
                 "character_limit": meta("character_limit", None)}
        i = len(strings)
        v = getattr(n, "icu", None)
        if v is not None:
            strings.append(S(J.kv_key(p), v.region, v.value, icu.render,
                             pluralized=True, **attrs))
            seg = [v.prefix, i, v.suffix]
        else:
            strings.append(S(J.kv_key(p), n.raw, **attrs))
            seg = [i]
        strings[-1].payload_path = p
        strings[-1].icu = v
        return seg
    return Doc(J.emit(root, layout, on_str), strings)


def t_all(i, s):
    if s.pluralized:
        return {1: "x%d" % i, 5: "{cnt} \\\\1"}
    return 'T%d \\"}, {,' % i


def at(val, path):
    for kind, x in path:
        if kind == "i":
            val = val[1 + x]
        else:
            x = json.loads('"%s"' % x)
            val = [v for k, v in val[1:] if k == x]
            if len(val) != 1:
                return None
            val = val[0]
    return val


def blank_meta(val):
    """A decoded document with the payload metadata taken out."""
    if isinstance(val, list) and val and val[0] == "obj":
        leaf_ = any(k == "string" for k, _ in val[1:])
        return ["obj"] + [[k, blank_meta(v)] for k, v in val[1:]
                          if not (leaf_ and k in ("context",
                                                  "developer_comment",
                                                  "character_limit"))]
    if isinstance(val, list):
        return [blank_meta(v) for v in val]
    return val


def update(ctx, doc, tmpl, got, upd, root_value):
    """Compile with changed metadata and look at the decoded result."""
    from openformats.strings import OpenString
    objs = []
    for i, (g, s) in enumerate(zip(got, doc.strings)):
        u = {k: v for k, v in upd.items()}
        # rotate so that neighbouring strings get different metadata
        if i % 2:
            u = {"context": "only%d" % i, "developer_comment": "c%d" % i,
                 "character_limit": i}
        objs.append(OpenString(g.key, t_all(i, s), pluralized=s.pluralized,
                               order=g.order, **u))
        # what a translated string carries is found by position, its
        # placeholder is still the source one
        objs[-1]._string_hash = g.string_hash
    ctx.step()
    out = new().compile(tmpl, iter(objs))
    try:
        val = J.decode(out)
    except ValueError as e:
        raise Violation("compiled file is not valid JSON", compiled=out,
                        template=tmpl, error=str(e))
    for i, (o, s) in enumerate(zip(objs, doc.strings)):
        pl = at(val, s.payload_path)
        if not isinstance(pl, list):
            raise Violation("entry lost", compiled=out, key=s.key)
        want = t_all(i, s)
        if s.pluralized:
            want = s.icu.prefix + icu.render(want) + s.icu.suffix
        pairs = pl[1:]
        names = [k for k, _ in pairs]
        if len(set(names)) != len(names):
            raise Violation("repeated payload key", compiled=out)
        d = dict((k, v) for k, v in pairs)
        expect(d["string"], json.loads('"%s"' % want), "translated string",
               compiled=out)
        for a in ("context", "developer_comment", "character_limit"):
            w = getattr(o, a)
            g = d.get(a)
            if (g or w) and g != w:
                raise Violation("%s not written" % a, compiled=out,
                                template=tmpl, got=g, want=w)
    base = J.decode(new().compile(
        tmpl, [OpenString(o.key, o.string, pluralized=o.pluralized)
               if False else o for o in objs]))
    expect(strip_strings(blank_meta(val)),
           strip_strings(blank_meta(root_value)),
           "something other than strings and metadata changed",
           compiled=out)
    ctx.outcome(out)


def strip_strings(val):
    if isinstance(val, list) and val and val[0] == "obj":
        return ["obj"] + [[k, None if k == "string" and not
                           isinstance(v, list) else strip_strings(v)]
                          for k, v in val[1:]]
    if isinstance(val, list):
        return [strip_strings(v) for v in val]
    return val


def trace(ctx, root, layout, updates):
    doc = build(root, layout)
    tmpl, got = check_doc(ctx, new, doc, [t_all])
    if updates:
        value = J.value(root)
        for upd in UPDATES:
            update(ctx, doc, tmpl, got, upd, value)


# -- sync ---------------------------------------------------------------
def sync_docs():
    a = J.Obj([("string", J.Str("x"))])
    b = J.Obj([("context", J.Str("c, }")), ("string", J.Str("y")),
               ("character_limit", J.Lit("5"))])
    c = leaf([("string", None), ("extra", J.Obj([("k", J.Lit("1"))]))], 3)
    d = J.Obj([("string", J.Str("z")), ("developer_comment", J.Str("[ ,"))])
    ls = [a, b, c, d]
    ig = [J.Lit("1"), J.Str("p"), J.Arr([J.Str("x")])]
    for x, y in itertools.product(ls, repeat=2):
        yield J.Obj([("k1", x), ("k.2", y)])
        yield J.Obj([("k1", J.Obj([("n", x)])), ("{ ,", y)])
        yield J.Obj([("k1", x), ("g", J.Obj([("n", y), ("m", x)]))])
        yield J.Obj([("g", J.Obj([("n", y), ("h", J.Obj([("m", x)]))]))])
        yield J.Arr([J.Obj([("n", x)]), J.Obj([("m", y)])])
        yield J.Arr([J.Obj([("n", x), ("q", y)])])
        for i in ig:
            yield J.Obj([("i", i), ("k1", x), ("k2", y)])
            yield J.Obj([("k1", x), ("i", i), ("k2", y)])
            yield J.Obj([("k1", x), ("k2", y), ("i", i)])
    for x, y, z in itertools.product(ls, repeat=3):
        yield J.Obj([("k1", x), ("k2", y), ("k3", z)])


def prune(node, keep, path=()):
    """Reference: drop leaves not kept and objects left without a leaf."""
    if node.kind == "arr" and path == ():
        return J.Arr([prune(c, keep, (("i", i),)) or None
                      for i, c in enumerate(node.items)
                      if prune(c, keep, (("i", i),)) is not None])
    out, has = [], False
    for k, c in node.items:
        p = path + (("k", k),)
        if c.kind != "obj":
            out.append((k, c))
        elif is_leaf(c):
            if p in keep:
                out.append((k, c))
                has = True
        else:
            sub = prune(c, keep, p)
            if sub is not None:
                out.append((k, sub))
                has = True
    if not has and path != ():
        return None
    return J.Obj(out)


def sync_trace(ctx, root, layout, conv):
    from openformats.strings import OpenString
    from vp.checks.c06 import PH
    src = conv(J.text(root, layout))
    ctx.step()
    tmpl, got = new().parse(src)
    doc = build(root, layout)
    expect([g.key for g in got], [s.key for s in doc.strings], "keys")
    n = len(got)

    def verify(t, keep, added, objs):
        try:
            J.decode(t)
        except ValueError as e:
            raise Violation("synced template is not valid JSON", template=t,
                            error=str(e))
        expect(PH.findall(t), [o.template_replacement for o in objs],
               "placeholders of the synced template", template=t)
        ctx.step(2)
        out = new().compile(t, iter(objs))
        try:
            val = J.decode(out)
        except ValueError as e:
            raise Violation("compiled file is not valid JSON", compiled=out,
                            error=str(e))
        pr = prune(root, {doc.strings[i].payload_path for i in keep})
        want = decoded_with_plurals(pr)
        for o in added:
            entry = {"string": o.string}
            for a in ("context", "developer_comment", "character_limit"):
                if getattr(o, a):
                    entry[a] = getattr(o, a)
            key = o.key.replace("\\.", ".")
            pair = [key, ["obj"] + [[k, v] for k, v in entry.items()]]
            want.append(pair if root.kind == "obj" else ["obj", pair])
        expect(val, want, "compiled file", compiled=out, template=t)
        expect(new().sync_template(t, objs), t, "second sync changed it")
        ctx.outcome(out)
        ctx.state(t)

    for r in range(n + 1):
        for keep in itertools.combinations(range(n), r):
            for nadd in (0, 1, 2):
                added = [OpenString("new%d\\.x" % j, "w%d" % j, order=99 + j,
                                    context=["", 'a "b"'][j],
                                    developer_comment=["dd", ""][j],
                                    character_limit=[None, 9][j])
                         for j in range(nadd)]
                objs = [got[i] for i in keep] + added
                ctx.step()
                t1 = new().sync_template(tmpl, iter(objs))
                verify(t1, keep, added, objs)
                for drop in range(len(objs)):
                    o2 = objs[:drop] + objs[drop + 1:]
                    ctx.step()
                    t2 = new().sync_template(t1, o2)
                    verify(t2, [i for j, i in enumerate(keep) if j != drop],
                           [o for o in added if o in o2], o2)


def decoded_with_plurals(node):
    def conv(n):
        v = getattr(n, "icu", None)
        if v is not None:
            return json.loads('"%s"' % (v.prefix + icu.render(v.value) +
                                        v.suffix))
        if n.kind == "arr":
            return ["arr"] + [conv(c) for c in n.items]
        if n.kind == "obj":
            return ["obj"] + [[json.loads('"%s"' % k), conv(c)]
                              for k, c in n.items]
        return J.value(n)
    return conv(node)


NP = 64


def shards(tier):
    for p in range(NP):
        yield ("payload", p)
    for p in range(16):
        yield ("struct", p)
        yield ("sync", p)


def struct_docs():
    ls = [leaf([("string", None)], 0),
          leaf([("string", None), ("context", J.Str("c"))], 1),
          leaf([("developer_comment", J.Str("d")), ("string", None)], 3),
          J.Obj([("string", J.Str(" ")), ("context", J.Str("c"))])]
    real = ls[:3]
    for x in real:
        for ig in IGNORED:
            yield J.Obj([("i", ig), ("k", x)])
            yield J.Obj([("k", x), ("i", ig)])
            yield J.Obj([("g", J.Obj([("i", ig), ("k", x)]))])
            yield J.Obj([("g", J.Obj([("k", x), ("i", ig)])), ("z", x)])
            yield J.Arr([ig, J.Obj([("k", x)])]) if ig.kind == "lit" else \
                J.Arr([J.Obj([("i", ig), ("k", x)])])
        for y in ls:
            yield J.Arr([J.Str("plain"), J.Obj([("b", y)]), J.Obj([("k", x)]),
                         J.Arr([J.Str("z"), J.Obj([("k", y)])])])
            yield J.Obj([("k.1", y), ("k\\\\", x)])
            yield J.Obj([("k.1", x), ("", y)])
            yield J.Obj([("a", J.Obj([("b", J.Obj([("c", x)])), ("d", y)]))])
            yield J.Arr([J.Obj([("b", y)]), J.Obj([("b", x)])])
            yield J.Obj([("string", x), ("k", y)])
            yield J.Obj([("string", J.Str("plain")), ("k", x)])
            yield J.Obj([("context", x), ("character_limit", y)])
            for z in ls:
                yield J.Obj([("x", y), ("y", x), ("z", z)])


def explore(ctx, shard):
    fam, part = shard
    if fam == "payload":
        for i, (order, n) in enumerate(payloads(ctx.thorough)):
            if i % NP != part:
                continue
            x = leaf(order, n)
            two = leaf([("string", None)], n + 1)
            for root in (J.Obj([("k", x)]), J.Obj([("k", x), ("l", two)]),
                         J.Obj([("j", two), ("n", J.Obj([("k", x)]))])):
                for layout in LAYS:
                    ctx.state((root.key(), layout))
                    ctx.case(trace, ctx, root, layout, True,
                             replay={"text": J.text(root, layout)})
        ctx.sample(J.text(root, "space"))
    elif fam == "struct":
        for i, root in enumerate(struct_docs()):
            if i % 16 != part:
                continue
            for layout in LAYS:
                ctx.state((root.key(), layout))
                ctx.case(trace, ctx, root, layout, False,
                         replay={"text": J.text(root, layout)})
        ctx.sample(J.text(root, "space"))
    else:
        for i, root in enumerate(sync_docs()):
            if i % 16 != part:
                continue
            for layout in LAYS:
                ctx.case(sync_trace, ctx, root, layout, lambda t: t,
                         replay={"text": J.text(root, layout)})
            ctx.case(sync_trace, ctx, root, "lines", dos,
                     replay={"text": dos(J.text(root, "lines"))})
