"""C24 - PO: extraction, template, round trip and translation."""
from __future__ import unicode_literals

import itertools

from vp.core import Violation, expect
from vp.docs import translated
from vp.po import HEADS, Entry, document, read

TOKENS = ["a", " ", ":", "\\", "\"", "\n", "\t", "\u03b1", "%d", "#", "\\n",
          "_tr", "'", "msgid \"b\"", "[0]"]


def kinds():
    """(name, entry of position i); keys of one kind differ by position."""
    out = []

    def add(name, fn):
        out.append((name, fn))
    add("single", lambda i: Entry("m%d" % i, "", "s%d" % i))
    add("escaped", lambda i: Entry("it\\s: \"%d\"\nx" % i, "", "t\\\"\n\tx\n"))
    add("plural", lambda i: Entry("p%d" % i, "ps: %d\\" % i,
                                  {0: "one", 1: "many\n%d" % i}))
    add("plural3", lambda i: Entry("p3\\%d" % i, "x",
                                   {0: "a", 1: "b", 2: "c"}, "ctx"))
    add("ctx", lambda i: Entry("same", "", "in ctx", "c:%d" % i))
    add("emptyctx", lambda i: Entry("e%d" % i, "", "v", ""))
    add("meta", lambda i: Entry(
        "meta%d" % i, "", "v", "c", "dev\nnote", "trans\nnote",
        [("a.py", "12"), ("b.c", "3")], ["c-format", "no-wrap"], "old"))
    add("comment", lambda i: Entry("c%d" % i, "", "v", comment="only dev"))
    add("tcomment", lambda i: Entry("t%d" % i, "", "v", tcomment="only tr",
                                    occ=[("x y.py"[:1], "")]))
    add("empty", lambda i: Entry("em%d" % i, "", ""))
    add("emptyplural", lambda i: Entry("ep%d" % i, "eps", {0: "", 1: ""}))
    add("spaces", lambda i: Entry("sp%d" % i, "", " \n"))
    add("spacesplural", lambda i: Entry("spp%d" % i, " ", {0: " ", 1: " "}))
    add("fuzzy", lambda i: Entry("f%d" % i, "", "fz", flags=["fuzzy"]))
    add("fuzzyplural", lambda i: Entry("fp%d" % i, "fps", {0: "x", 1: "y"},
                                       flags=["python-format", "fuzzy"]))
    add("spaceplural", lambda i: Entry("wp%d" % i, " ", {0: "x", 1: "y"}))
    add("obsolete", lambda i: Entry("ob%d" % i, "", "gone", obsolete=True))
    add("same", lambda i: Entry("same", "", "x"))
    add("sameplural", lambda i: Entry("same", "other", {0: "x", 1: "y"}))
    add("samectx", lambda i: Entry("same", "", "y", "c:0"))
    add("broken", lambda i: Entry("br%d" % i, "brs", {0: "x", 1: ""}))
    add("noid", lambda i: Entry("", "", "text", "ctx only"))
    add("strayplural", lambda i: Entry("st%d" % i, "", {0: "x", 1: "y"}))
    add("straysingle", lambda i: Entry("sg%d" % i, "sgs", "x"))
    return out


def bounds(tier):
    return {"entry kinds": [k for k, _ in kinds()],
            "files": "every sequence of up to %d entries" % (
                4 if tier == "thorough" else 3),
            "texts": "every sequence of up to %d of %d tokens as key, text "
                     "and translation" % (4 if tier == "thorough" else 3,
                                          len(TOKENS)),
            "heads": sorted(HEADS), "is_source": [True, False],
            "template": "as object, as text"}


def predict(entries, is_source):
    """None if the file must be refused, else [(entry, value, kept)]."""
    seen, types = set(), set()
    for e in entries:
        if not e.msgid:
            return None
        if e.plural and not isinstance(e.msgstr, dict) and e.msgstr.strip():
            return None
        if not e.plural and isinstance(e.msgstr, dict) and any(
                e.msgstr.values()):
            return None
        if e.ident in seen:
            return None
        seen.add(e.ident)
        if e.status == "BROKEN":
            return None
        types.add(e.status)
    if is_source and "EMPTY" in types and "FULL" in types:
        return None
    pot = "FULL" not in types
    out = []
    for e in entries:
        if is_source:
            if pot:
                value = ({0: e.msgid, 1: e.plural} if e.plural else e.msgid)
            else:
                value = e.msgstr
        elif e.status == "EMPTY":
            out.append((e, None, False))
            continue
        else:
            value = e.msgstr
        out.append((e, value, not e.fuzzy))
    return out


def H():
    from openformats.formats.po import PoHandler
    return PoHandler()


def trace(ctx, entries, head="meta", canonical=True, translations=None):
    from openformats.exceptions import ParseError
    first, later = HEADS[head]
    src = document(first, [e.text() for e in entries])
    for is_source in (True, False):
        want = predict(entries, is_source)
        ctx.step()
        try:
            tmpl, got = H().parse(src, is_source=is_source)
        except ParseError as e:
            if want is not None:
                raise Violation("a valid file is refused", source=src,
                                is_source=is_source, error=str(e))
            ctx.outcome("refused")
            continue
        if want is None:
            raise Violation("an inconsistent file is accepted", source=src,
                            is_source=is_source,
                            got=[(g.key, g.string) for g in got])
        strings = [(e, v) for e, v, _ in want if v is not None]
        expect([(g.key, g.string, g.context, bool(g.pluralized))
                for g in got],
               [(e.key, v, e.ctxt or "", bool(e.plural))
                for e, v in strings], "stringset", source=src)
        expect([(g.developer_comment, g.flags, g.occurrences, g.fuzzy)
                for g in got],
               [("\n".join([e.comment, e.tcomment]) if not e.obsolete
                 else "\n" + e.tcomment, ", ".join(e.flags),
                 ", ".join(":".join(o) for o in e.occ) or None, e.fuzzy)
                for e, v in strings], "attributes", source=src)
        live = [g.order for g in got if not g.fuzzy]
        expect(live, list(range(len(live))), "order", source=src)
        kept = [e for e, v, k in want if k]
        objs = [g for g in got if not g.fuzzy]
        text = H().pofile_to_str(tmpl)
        tvals = [{0: g.template_replacement} if g.pluralized
                 else g.template_replacement for g in objs]
        if canonical:
            expect(text, document(later, [
                e.text(v) for e, v in zip(kept, tvals)]), "template",
                source=src)
        # the unchanged strings
        vals = [v for e, v, k in want if k]
        check(ctx, tmpl, text, objs, kept, vals, later, canonical, src)
        for t in translations or [lambda i, n=None: "T%d\n\"\\: x" % i]:
            vals = [({0: t(i, 0), 1: t(i, 1), 2: t(i, 2)} if o.pluralized
                     else t(i, 0)) for i, o in enumerate(objs)]
            check(ctx, tmpl, text, objs, kept, vals, later, canonical, src)


def check(ctx, tmpl, text, objs, kept, vals, later, canonical, src):
    for form in (tmpl, text):
        ctx.step()
        out = H().compile(form, [translated(objs, i, v)
                                 for i, v in enumerate(vals)])
        if canonical:
            expect(out, document(later, [
                e.text(v) for e, v in zip(kept, vals)]),
                "compiled file", source=src,
                template="text" if form is text else "object")
        try:
            back = read(out)
        except Exception as e:
            raise Violation("compiled file is not readable", got=out,
                            error=str(e), source=src)
        want = []
        for e, v in zip(kept, vals):
            f = {"msgid": e.msgid}
            if e.ctxt is not None:
                f["msgctxt"] = e.ctxt
            if e.plural:
                f["msgid_plural"] = e.plural
            if isinstance(v, dict):
                for k in v:
                    f["msgstr[%d]" % k] = v[k]
            else:
                f["msgstr"] = v
            want.append(f)
        expect([f for _, f in back[1:]], want, "data of the compiled file",
               source=src, compiled=out)
        ctx.outcome(out)


def shards(tier):
    n = len(kinds())
    return ([("seq", i, j) for i in range(n) for j in range(n)] +
            [("text", i, 0) for i in range(len(TOKENS))])


def explore(ctx, shard):
    fam, i, j = shard
    if fam == "text":
        first = TOKENS[i]
        n = 4 if ctx.thorough else 3
        for r in range(n):
            for rest in itertools.product(TOKENS, repeat=r):
                t = first + "".join(rest)
                if not ctx.state(("text", t)):
                    continue
                es = [Entry(t, "", "x"), Entry("k", "", t), Entry("z", t, {
                    0: t, 1: "b"}), Entry("k", "", "y", "c" + t)]
                if t in ("k",):
                    continue
                es = [e for e in es if e.status == "FULL"]
                ctx.case(trace, ctx, es, canonical=False,
                         translations=[lambda i, n=None: t],
                         replay={"text": t})
        return
    ks = kinds()
    for r in range(-1, 3 if ctx.thorough else 2):
        if r == -1:
            if i == j:
                for head in sorted(HEADS):
                    if ctx.state(("one", i, head)):
                        ctx.case(trace, ctx, [ks[i][1](0)], head,
                                 replay={"kinds": [ks[i][0]], "head": head})
            continue
        for rest in itertools.product(range(len(ks)), repeat=r):
            seq = (i, j) + rest
            ctx.distinct()
            ctx.case(trace, ctx, [ks[k][1](p) for p, k in enumerate(seq)],
                     sorted(HEADS)[sum(seq) % len(HEADS)],
                     replay={"kinds": [ks[k][0] for k in seq]})
    ctx.sample([ks[i][0], ks[j][0]])
