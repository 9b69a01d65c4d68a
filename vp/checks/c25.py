"""C25 - PO: histories of template synchronisation."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.docs import translated
from vp.po import HEADS, Entry, document, read

POOL = [
    Entry("a", "", "A", "ctx:1", "dev\nnote", "", [("a.py", "12")],
          ["c-format", "no-wrap"]),
    Entry("p: x\\", "ps\\:", {0: "one", 1: "many"}, comment="c"),
    Entry("a", "", "other A"),
    Entry("q", " ", {0: "x", 1: "y"}, "k", occ=[("http://h:8/b.c", "3"), ("d.c", "")]),
    Entry("it\n\"is\"", "", "long\ntext"),
]


def selections(n):
    """Every ordered choice of strings of the pool."""
    for r in range(n + 1):
        for c in itertools.permutations(range(n), r):
            yield c


def bounds(tier):
    n, d = size(tier)
    return {"pool": n, "start": "every subset of the pool, in two orders",
            "operations": "synchronisation with every ordered selection of "
                          "the pool", "depth": d,
            "handler": "one handler for the whole history, a new one for "
                       "each operation"}


def size(tier):
    return (5, 2) if tier == "thorough" else (4, 2)


def H():
    from openformats.formats.po import PoHandler
    return PoHandler()


_objs = []


def objects():
    if not _objs:
        src = document(HEADS["meta"][0], [e.text() for e in POOL])
        _objs.extend(H().parse(src)[1])
    return _objs


def facts(notes):
    out = {"comment": [], "occ": [], "flags": []}
    for n in notes:
        if n.startswith("#:"):
            out["occ"] += n[2:].split()
        elif n.startswith("#,"):
            out["flags"] += [f.strip() for f in n[2:].split(",")]
        elif n.lstrip("#.").strip():
            out["comment"].append(n.lstrip("#.").strip())
    return out


def expected(e, msgstr):
    f = {"msgid": e.msgid}
    if e.ctxt:
        f["msgctxt"] = e.ctxt
    if e.plural:
        f["msgid_plural"] = e.plural
        for k in msgstr:
            f["msgstr[%d]" % k] = msgstr[k]
    else:
        f["msgstr"] = msgstr
    return ({"comment": e.comment.split("\n") if e.comment else [],
             "occ": [":".join(o).rstrip(":") for o in e.occ], "flags": list(e.flags)}, f)


def look(text, sel, values, what, **detail):
    try:
        back = read(text)
    except Exception as e:
        raise Violation(what + ": not readable", got=text, error=str(e),
                        **detail)
    expect(back[0][1].get("msgstr"), "Language: en\nPlural-Forms: "
           "nplurals=2; plural=(n != 1);\n", what + ": header", got_file=text)
    expect([(facts(n), f) for n, f in back[1:]],
           [expected(POOL[i], v) for i, v in zip(sel, values)],
           what, file=text, **detail)


def trace(ctx, start, syncs, reuse, as_object=False):
    objs = objects()
    src = document(HEADS["meta"][0], [POOL[i].text() for i in start])
    h = H()
    ctx.step()
    tmpl, _ = h.parse(src)
    first = True
    for sel in syncs:
        chosen = [objs[i] for i in sel]
        if not reuse:
            h = H()
        if not as_object and first:
            tmpl = h.pofile_to_str(tmpl)
        first = False
        ctx.step()
        out = h.sync_template(tmpl, iter(chosen))
        if not isinstance(out, str):
            out = h.pofile_to_str(out)
        look(out, sel, [{0: o.template_replacement} if o.pluralized
                        else o.template_replacement for o in chosen],
             "template after synchronising", before=str(tmpl), start=start)
        tmpl = out
        vals = [{0: "T%d" % n, 1: "U\n%d" % n} if o.pluralized
                else "T\"%d" % n for n, o in enumerate(chosen)]
        ctx.step()
        out = h.compile(tmpl, [translated(chosen, n, v)
                               for n, v in enumerate(vals)])
        look(out, sel, vals, "compiled after synchronising",
             template=tmpl, start=start)
        ctx.outcome(out)


def shards(tier):
    n, _ = size(tier)
    return list(enumerate(selections(n)))


def explore(ctx, shard):
    n, depth = size(ctx.tier)
    _, first = shard
    for r in range(n + 1):
        for start in itertools.combinations(range(n), r):
            for st in {start, start[::-1]}:
                for syncs in [()] + [(s,) for s in selections(n)]:
                    full = (first,) + syncs
                    reuse = (sum(start) + len(first) +
                             (len(syncs) and len(syncs[0]))) % 2 == 0
                    ctx.distinct()
                    ctx.case(trace, ctx, st, full, reuse, not syncs,
                             replay={"start": st, "syncs": full,
                                     "reuse": reuse})
    ctx.sample([first])
