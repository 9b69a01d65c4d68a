"""C06 - key-value JSON templates under histories of stringset edits.

State: (document, layout, live subset, added keys).  Transitions: sync the
current template with any smaller stringset and/or with new strings at the end.
All histories of two syncs are explored; after every sync the template must be
valid JSON, hold exactly the stringset's placeholders in order, keep everything
that is not translatable, and be a fixed point; compiling it must give the
pruned document with the translations in place.
"""
from __future__ import unicode_literals

import itertools
import json
import re

from vp import icu, jsonmodel as J
from vp.core import Violation, expect
from vp.docs import translated

PH = re.compile(r"[0-9a-f]{32}_(?:tr|pl)")
KEYS = ["a", "b.c", "{ ,", ", }", "\\\\", "[,", ",,", 'q\\",', "]"]
NEWKEYS = ["new", "x\\.y", "caf\u00e9 , }"]
LAYS = ["tight", "space", "lines", "ragged"]


def leaves():
    out = [J.Str("v"), J.Lit("null"), J.Str("")]
    v = icu.variants()[0]
    n = J.Str(v.raw)
    n.icu = v
    out += [n, J.Str(" "), J.Lit("1.5"), J.Str("], ,}")]
    return out


def bounds(tier):
    return {
        "documents": "all trees of depth 2 with <=2 children over %d leaf "
                     "kinds; flat objects/lists of 3 values over 4 leaf kinds; "
                     "each depth-1 container in a list root" % (
                         3 if tier == "quick" else 4),
        "keys": KEYS, "layouts": LAYS, "added keys": NEWKEYS,
        "max strings": 4, "histories": "parse; sync to any subset (0..2 added "
        "strings); sync again to any subset of that; compile",
    }


def mk(kind, children, off=0):
    if kind == "arr":
        return J.Arr(children)
    return J.Obj([(KEYS[(off + i) % len(KEYS)], c)
                  for i, c in enumerate(children)])


def level(pool):
    yield J.Obj([])
    yield J.Arr([])
    for kind in ("obj", "arr"):
        for i, c in enumerate(pool):
            yield mk(kind, [c], i)
        for i, c in enumerate(itertools.product(pool, repeat=2)):
            yield mk(kind, list(c), i)


NP = 96


def shards(tier):
    for p in range(NP):
        yield p


def docs(part, thorough):
    lv = leaves()
    pool = lv[:4] if thorough else lv[:3]
    t1 = list(level(pool))
    i = 0
    seqs = [level(pool + t1),
            (mk(k, list(c), j) for k in ("obj", "arr")
             for j, c in enumerate(itertools.product(lv[:4], repeat=3))),
            (mk(k, list(c), j) for k in ("obj", "arr")
             for j, c in enumerate(itertools.product(lv, repeat=2))),
            (mk(k, [mk(k2, [t], j)], j) for k in ("obj", "arr")
             for k2 in ("obj", "arr") for j, t in enumerate(t1))]
    for seq in seqs:
        for d in seq:
            i += 1
            if i % NP == part:
                yield d


def live(node, path, keep):
    """Reference pruning: the pruned node, or None when it disappears."""
    if node.kind == "lit":
        return node
    if node.kind == "str":
        if not node.raw.strip():
            return node
        return node if path in keep else None
    if not node.items:
        return node
    out = []
    for i, it in enumerate(node.items):
        if node.kind == "obj":
            child = live(it[1], path + (("k", it[0]),), keep)
            if child is not None:
                out.append((it[0], child))
        else:
            child = live(it, path + (("i", i),), keep)
            if child is not None:
                out.append(child)
    if not out:
        return None
    return J.Obj(out) if node.kind == "obj" else J.Arr(out)


def expected(node, keep_ids, paths, texts, added, root_kind):
    """Decoded value expected after compiling with ``texts``."""
    ids = {paths[i]: i for i in keep_ids}

    def conv(n, path):
        if n.kind == "lit":
            return json.loads(n.text)
        if n.kind == "str":
            if not n.raw.strip():
                return n.raw
            i = ids.get(path)
            return None if i is None else ("S", texts[i])
        out = [n.kind]
        alive = not n.items
        for j, it in enumerate(n.items):
            if n.kind == "obj":
                p, c = path + (("k", it[0]),), it[1]
            else:
                p, c = path + (("i", j),), it
            if live(c, p, ids) is None:
                continue
            alive = True
            v = conv(c, p)
            if isinstance(v, tuple):
                v = v[1]
            out.append([json.loads('"%s"' % it[0]), v]
                       if n.kind == "obj" else v)
        return out
    out = conv(node, ())
    for k, t in added:
        k = json.loads('"%s"' % k.replace("\\.", "."))
        out.append([k, t] if root_kind == "obj" else ["obj", [k, t]])
    return out


def strings_of(node):
    out = []

    def on_str(path, n):
        if n.raw.strip():
            out.append((path, n))
        return [n.raw]
    J.emit(node, "tight", on_str)
    return out


def new():
    from openformats.formats.json import JsonHandler
    return JsonHandler()


def verify(ctx, tmpl, objs, node, keep_ids, paths, added, root_kind, nodes):
    want_ph = [o.template_replacement for o in objs]
    try:
        J.decode(tmpl)
    except ValueError as e:
        raise Violation("synced template is not valid JSON", template=tmpl,
                        error=str(e), stringset=[o.key for o in objs])
    expect(PH.findall(tmpl), want_ph, "placeholders of the synced template",
           template=tmpl)
    # compile with translations
    trans, texts = [], {}
    for n, o in enumerate(objs):
        if o.pluralized:
            v = {1: "p%d" % n, 5: "q%d, }" % n}
        else:
            v = "t%d ,] {," % n
        trans.append(translated(objs, n, v))
    for n, i in enumerate(keep_ids):
        if objs[n].pluralized:
            ic = nodes[i].icu
            texts[i] = ic.prefix + icu.render(trans[n].string) + ic.suffix
        else:
            texts[i] = trans[n].string
    add = [(k, trans[len(keep_ids) + j].string)
           for j, k in enumerate(added)]
    ctx.step()
    out = new().compile(tmpl, iter(trans))
    try:
        got = J.decode(out)
    except ValueError as e:
        raise Violation("compiled file is not valid JSON", template=tmpl,
                        compiled=out, error=str(e))
    expect(got, expected(node, keep_ids, paths, texts, add, root_kind),
           "compiled file", template=tmpl, compiled=out)
    ctx.outcome(out)
    ctx.step()
    expect(new().sync_template(tmpl, objs), tmpl,
           "syncing again with the same stringset changed the template")


def trace(ctx, node, layout, conv):
    from openformats.strings import OpenString
    src = conv(J.text(node, layout))
    h = new()
    ctx.step()
    tmpl, got = h.parse(src)
    found = strings_of(node)
    paths = [p for p, _ in found]
    nodes = [n for _, n in found]
    expect([g.key for g in got], [J.kv_key(p) for p in paths], "keys")
    n = len(got)
    root_kind = node.kind
    ids = list(range(n))
    for r in range(n + 1):
        for keep in itertools.combinations(ids, r):
            for nadd in (0, 1, 2):
                if nadd and root_kind == "arr" and layout == "ragged":
                    pass
                added = NEWKEYS[:nadd] if (r + nadd) % 2 else NEWKEYS[-nadd:] if nadd else []
                extra = [OpenString(k, "n", order=1000 + j)
                         for j, k in enumerate(added)]
                objs = [got[i] for i in keep] + extra
                ctx.step()
                t1 = new().sync_template(tmpl, iter(objs))
                base = live(node, (), {paths[i]: i for i in keep})
                if base is None:
                    # everything went: the root container itself stays
                    base_node = J.Obj([]) if root_kind == "obj" else J.Arr([])
                    keep_paths = []
                else:
                    base_node, keep_paths = node, keep
                ctx.state((t1, layout))
                verify(ctx, t1, objs, base_node, list(keep), paths, added,
                       root_kind, nodes)
                if nadd == 2:
                    continue
                # second edit: every smaller stringset
                for r2 in range(len(objs)):
                    for sub in itertools.combinations(range(len(objs)), r2):
                        keep2 = [keep[i] for i in sub if i < len(keep)]
                        added2 = [added[i - len(keep)] for i in sub
                                  if i >= len(keep)]
                        o2 = [objs[i] for i in sub]
                        ctx.step()
                        t2 = new().sync_template(t1, o2)
                        b2 = live(node, (), {paths[i]: i for i in keep2})
                        b2 = node if b2 is not None else (
                            J.Obj([]) if root_kind == "obj" else J.Arr([]))
                        ctx.state((t2, layout))
                        verify(ctx, t2, o2, b2, keep2, paths, added2,
                               root_kind, nodes)


def explore(ctx, part):
    from vp.docs import dos
    for k, node in enumerate(docs(part, ctx.thorough)):
        if len(strings_of(node)) > 4:
            ctx.scope("skipped: more than 4 strings")
            continue
        for layout in LAYS:
            ctx.case(trace, ctx, node, layout, lambda t: t,
                     replay={"text": J.text(node, layout)})
        ctx.case(trace, ctx, node, "lines", dos,
                 replay={"text": dos(J.text(node, "lines"))})
        if k == 30:
            ctx.sample(J.text(node, "lines"))
