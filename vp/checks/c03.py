"""C03 - the position-preserving JSON reader against generated documents."""
from __future__ import unicode_literals

import itertools
import json

from vp import jsonmodel as J
from vp.core import Violation, expect

STRS = ["", "a", " ", '\\"', "\\\\", 'a\\\\\\"b', "],", "{", '}', ":", ",",
        "\\u0041\\n", "\u03b1\U0001f600", "\\\\\\\\", "x\\\\", "null", "//"]
LITS = ["null", "true", "false", "0", "-1", "12", "1.5", "-0.25", "1e5",
        "1E5", "1e+5", "2.5e-3", "-1.0E+2", "1.5e3", "10", "0e1"]
KEYS = ["a", "", "b.c", '\\"', "\\\\", "}", "\u03b1"]
SMALL = [J.Str("a"), J.Str('\\"'), J.Str("x\\\\"), J.Lit("null"),
         J.Lit("1"), J.Lit("false"), J.Lit("0")]
LAYS = sorted(J.LAYOUTS)


def bounds(tier):
    return {
        "atoms": STRS + LITS, "keys": KEYS, "layouts": J.LAYOUTS,
        "flat": "all objects and lists with <=2 items over all atoms, and 3 "
                "items over 7 atoms",
        "nested": "all trees of depth 2 with <=2 children over %d leaves; "
                  "every such tree below one more container, alone / before "
                  "/ after a leaf%s" % (
                      3 if tier == "quick" else 5,
                      "" if tier == "quick" else
                      "; depth 4 below two containers"),
    }


def atoms():
    return [J.Str(s) for s in STRS] + [J.Lit(t) for t in LITS]


def mk(kind, children, keyoff=0):
    if kind == "arr":
        return J.Arr(children)
    return J.Obj([(KEYS[(keyoff + i) % len(KEYS)], c)
                  for i, c in enumerate(children)])


def level(pool):
    yield J.Obj([])
    yield J.Arr([])
    for kind in ("obj", "arr"):
        for c in pool:
            yield mk(kind, [c])
        for c in itertools.product(pool, repeat=2):
            yield mk(kind, list(c))


def shards(tier):
    for kind in ("obj", "arr"):
        for i in range(len(atoms())):
            yield ("flat2", kind, i)
        for i in range(len(SMALL)):
            yield ("flat3", kind, i)
    n = 3 if tier == "quick" else 5
    for part in range(64):
        yield ("nested", n, part)


def docs(shard, thorough):
    if shard[0] == "flat2":
        at = atoms()
        first = at[shard[2]]
        for ko in range(len(KEYS)):
            yield mk(shard[1], [first], ko)
        for j, second in enumerate(at):
            yield mk(shard[1], [first, second], j)
    elif shard[0] == "flat3":
        for c in itertools.product(SMALL, repeat=2):
            yield mk(shard[1], [SMALL[shard[2]]] + list(c), shard[2])
    else:
        leaves = SMALL[:shard[1]]
        t1 = list(level(leaves))
        for i, t in enumerate(level(leaves + t1)):
            if i % 64 != shard[2]:
                continue
            yield t
            leaf = leaves[i % len(leaves)]
            for kind in ("obj", "arr"):
                yield mk(kind, [t])
                yield mk(kind, [t, leaf])
                yield mk(kind, [leaf, t])
                yield mk(kind, [t, t])
                if thorough:
                    for k2 in ("obj", "arr"):
                        yield mk(k2, [leaf, mk(kind, [t, leaf])])
                        yield mk(k2, [mk(kind, [leaf, t]), leaf])


def same(a, b):
    return type(a) is type(b) and a == b


def compare(dj, tree, src):
    from openformats.utils.json import DumbJson
    kind, start, end, items = tree
    expect(dj.type, dict if kind == "obj" else list, "container type")
    expect(dj.start, start, "container start", source=src)
    got = list(dj)
    expect(len(got), len(items), "number of items", source=src)
    for g, it in zip(got, items):
        if kind == "obj":
            expect(tuple(g[:2]), tuple(it[:2]), "key or key position",
                   source=src)
            g, it = g[2:], it[2]
        val, pos = g
        if it[0] in ("obj", "arr"):
            if not isinstance(val, DumbJson):
                raise Violation("embedded container not returned as one",
                                source=src, got=val)
            expect(pos, it[1], "container position", source=src)
            compare(val, it, src)
        elif it[0] == "str":
            expect((val, pos), (it[3], it[1]), "string value or position",
                   source=src)
            if not isinstance(val, str):
                raise Violation("string value is not text", source=src)
        else:
            want = json.loads(it[3])
            if not same(val, want):
                raise Violation("literal value", source=src, got=val,
                                want=want)
            expect(pos, it[1], "literal position", source=src)
    expect(dj.end, end, "container end", source=src)


def embedded(tree):
    if tree[0] in ("obj", "arr"):
        yield tree
        for it in tree[3]:
            child = it[2] if tree[0] == "obj" else it
            for t in embedded(child):
                yield t


def check(ctx, node, layout, full):
    from openformats.utils.json import DumbJson
    src, tree = J.emit_positions(node, layout)
    if J.decode(src) != J.value(node):
        raise RuntimeError("model disagrees with json: %r" % src)
    ctx.step()
    dj = DumbJson(src)
    compare(dj, tree, src)
    compare(dj, tree, src)           # reading twice gives the same
    ctx.step()
    expect(DumbJson(src).end, tree[2], "end without prior reading",
           source=src)
    if full:
        for sub in embedded(tree):
            ctx.step()
            compare(DumbJson(src, sub[1]), sub, src)
            if sub[0] == "obj":
                wanted = ["a", "", "nope", "b.c"]
                got = DumbJson(src, sub[1]).find_children(*wanted)
                want = []
                for w in wanted:
                    hit = [(c, k) for k, _, c in sub[3] if k == w]
                    want.append(hit[-1][0] if hit else None)
                for g, w in zip(got, want):
                    if w is None:
                        expect(tuple(g), (None, None), "missing child",
                               source=src)
                    elif w[0] == "str":
                        expect(tuple(g), (w[3], w[1]), "child", source=src)
                    elif w[0] == "lit":
                        expect(tuple(g), (json.loads(w[3]), w[1]), "child",
                               source=src)
                    else:
                        expect(g[1], w[1], "child position", source=src)
                        compare(g[0], w, src)
    ctx.outcome(src)


def explore(ctx, shard):
    for i, node in enumerate(docs(shard, ctx.thorough)):
        for layout in LAYS:
            if not ctx.state((node.key(), layout)):
                continue
            ctx.case(check, ctx, node, layout, shard[0] != "nested" or
                     layout == "ragged",
                     replay={"text": J.text(node, layout)})
        if i == 40:
            ctx.sample(J.text(node, "ragged"))
