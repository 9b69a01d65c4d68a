"""Run every handler on one pool of documents in this process' environment
and write what was observed, as digests, to a file.

Used by C44: python envrun.py <repo> <verif> <output> <thorough 0/1> <thread>
Prepares nothing of the environment: that is the point.
"""
import hashlib
import json
import os
import re
import sys

REPO, VERIF, OUT, THOROUGH, THREAD = sys.argv[1:6]
sys.dont_write_bytecode = True
sys.path[:0] = [VERIF, REPO, os.path.join(VERIF, "vp", "stubs")]
import warnings  # noqa: E402
warnings.simplefilter("ignore")


def digest(obj):
    return hashlib.md5(repr(obj).encode("utf-8", "backslashreplace")
                       ).hexdigest()


def texts():
    """Documents of every format of text."""
    from vp import corpus
    from vp.checks import c38
    for f in corpus.FORMATS:
        units = [u for u, _ in f.units]
        docs = [f.doc(units), f.doc(units[::-1])]
        docs += [f.doc((u,)) for u in units] if f.need < 2 else []
        docs += [d.replace("text", "t\u00e9xt \u05d0\U0001F600").replace(
            "q ", "q \u00df\u0130\u0131 ") for d in docs]
        docs += [d.replace("\n", "\r\n") for d in docs[:2]]
        docs += c38.EXTRA[c38.KIND[f.name]]
        whole = docs[len(units) + 2] if f.need < 2 else docs[0]
        step = max(1, len(whole) // (60 if THOROUGH == "1" else 15))
        docs += [whole[:i] + "\u00e9" for i in range(0, len(whole), step)]
        # every word is replaced, dropped or doubled
        for d in docs[2:3] if THOROUGH != "1" else docs[2:2 + len(units)]:
            parts = re.split(r"(\s+|\b)", d)
            for i, p in enumerate(parts):
                docs += ["".join(parts[:i] + [w] + parts[i + 1:])
                         for w in ("", "1", "to", p + p) if p]
        yield f, list(dict.fromkeys(docs))


def observe():
    from vp import ops
    out = {}
    for f, docs in texts():
        o = ops.Ops(f, docs, True)
        for op in o.ops():
            seen = o.run(op, f.handler())[0]
            out["%s %s" % (f.name, "/".join(map(str, op)))] = digest(seen)
    out.update(office())
    return out


def office():
    from vp import ooxml, ops
    from vp.checks import c33
    from vp.docs import translated
    from openformats.formats.indesign import InDesignHandler
    out = {}
    made = [(n, c33.source(n, "W \u00e9\u05d0\U0001F600"), n)
            for n in c33.OFFICE]
    made += [(n, c33.source(n), n + " ascii") for n in c33.OFFICE]
    made += [(n, ooxml.archive([
        (p, c.replace(b"?>\n", "?>\n<!-- \u00e9\u05d0\U0001F600 -->".encode(
            "utf-8"), 1)) for p, c in ooxml.members(c33.source(n))]),
        n + " comments") for n in c33.OFFICE]
    made.append(("idml", idml(), "idml"))
    for name, src, label in made:
        def handler():
            return InDesignHandler() if name == "idml" else c33.H(name)
        for data in (src, src[:len(src) // 2]):
            try:
                template, strings = handler().parse(data)
            except Exception as e:
                out["%s error" % label] = digest(type(e).__name__)
                continue
            out["%s parse" % label] = digest(
                (ooxml.members(template), [ops.describe(s) for s in strings]))
            for text in ("T%d", "T%d \u00fc\u05d0\U0001F600", "%d \r\n\u2028"):
                trans = [translated(strings, i, (text % i) + s.string)
                         for i, s in enumerate(strings)]
                for rtl in (False, True):
                    try:
                        got = ooxml.members(handler().compile(
                            template, trans, is_rtl=rtl))
                    except Exception as e:
                        got = type(e).__name__
                    out["%s compile %r %s" % (label, text, rtl)] = digest(got)
    return out


def idml():
    from vp import ooxml
    story = ("<Story><Content>caf\u00e9 \u05d0</Content><Content>%s</Content>"
             "</Story>")
    return ooxml.archive([
        ("mimetype", "application/vnd.adobe.indesign-idml-package"),
        ("designmap.xml", "<Document StoryList=\"b a\"/>"),
        ("Stories/Story_a.xml", story % "a"),
        ("Stories/Story_b.xml", story % "b"),
        ("Stories/Story_c.xml", story % "c"),
        ("Stories/Story_d.xml", story % "d"),
        ("XML/BackingStory.xml", story % "e")])


if __name__ == "__main__":
    result = {}
    if THREAD == "main":
        result.update(observe())
    else:
        import threading
        t = threading.Thread(target=lambda: result.update(observe()))
        t.start()
        t.join()
    with open(OUT, "w", encoding="ascii") as f:
        json.dump(result, f)
