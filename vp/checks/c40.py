"""C40 - the testbed answers as the handlers do and keeps what is saved.

Every request of the web service (testbed/) is made through Django's request
cycle on the real views: choosing a handler, parsing, compiling what was
parsed with every subset of strings left or translated, saving and opening
saved work, in every order within the bound.
"""
from __future__ import unicode_literals

import itertools
import json
import os
import re

from vp import corpus
from vp.core import REPO, expect

PAYLOADS = ('{"handler": "SRT", "source": "1\\n"}',
            '{"source": "</script>\\u00e9 \'x\' é\U0001f600\u2028"}',
            '{"a": "\\r\\n  b ", "c": [1, null, {"d": {}}]}',
            '{"e": [[]], "f": {"g": {"h": ""}}}')
UNKNOWN = "0" * 32
client = [None]


def bounds(tier):
    return {"documents": "every document of up to %d units of %d formats and "
            "%s damage of those with one" % (2 if tier == "quick" else 3,
                                                len(FORMATS),
                                                "every fourth" if tier ==
                                                "quick" else "every"),
            "compiled": "every subset of up to four strings, unchanged and "
            "translated", "histories": "every sequence of %d requests out of "
            "%d" % (4 if tier == "quick" else 5, len(OPS))}


ASSUMPTIONS = ("formats that are not text can not be used in the testbed",
               "an in-memory database stands for the file")
# (AndroidUnescapedHandler has the name of AndroidHandler)
FORMATS = [f for f in corpus.FORMATS if f.name != "android_unescaped" and
           not f.binary]


def web():
    """The test client of the application in this process."""
    if client[0] is None:
        os.chdir(REPO)
        os.environ["DJANGO_SETTINGS_MODULE"] = "testbed.settings"
        import warnings
        warnings.simplefilter("ignore")
        import django
        from django.conf import settings
        settings.DATABASES["default"]["NAME"] = ":memory:"
        settings.ALLOWED_HOSTS = ["*"]
        settings.LOGGING_CONFIG = None
        django.setup()
        import logging
        logging.disable(logging.CRITICAL)
        from django.db import connection
        from testbed.main.models import Payload
        with connection.schema_editor() as editor:
            editor.create_model(Payload)
        from django.test import Client
        client[0] = Client()
    return client[0]


def api(**payload):
    r = web().post("/api/", json.dumps(payload),
                   content_type="application/json")
    expect(r.status_code, 200, "the status of an answer", request=payload)
    return json.loads(r.content.decode("utf-8"))


# -- parse and compile ------------------------------------------------------

def last_line(text):
    return text.strip().split("\n")[-1]


def plain(text):
    """A message without what PyPy writes at random."""
    return re.sub("(?s)(Unexpected '|Invalid .escape: ).*?(?=line [0-9])", "", "%s" % text)


def error(e):
    """How the last line of a traceback starts."""
    cls = type(e)
    return "%s.%s" % (cls.__module__, cls.__name__) if (
        cls.__module__ != "builtins") else cls.__name__


FIELDS = ("key", "context", "order", "pluralized", "occurrences", "flags",
          "developer_comment", "comment", "tags", "character_limit",
          "template_replacement")


def parse_trace(ctx, f, src, compiles):
    import copy
    cls = f.plain()
    name = cls.name
    ctx.step()
    try:
        handler = cls()
        template, strings = handler.parse(src)
        strings = list(strings)
        problem = None
    except Exception as e:
        problem = e
    ctx.step()
    got = api(action="parse", handler=name, source=src)
    ctx.state((f.name, src))
    if problem is not None:
        ctx.outcome(error(problem))
        expect(bool(got["parse_error"]), True, "an error is reported",
               source=src, format=f.name)
        expect(error(problem) in got["parse_error"] and
               plain(problem) in plain(got["parse_error"]), True, "the error reported",
               source=src, format=f.name, said=last_line(got["parse_error"]),
               meant=repr(problem))
        expect((got["template"], got["stringset"]), ("", []),
               "nothing besides an error", source=src, format=f.name)
        return
    expect(got["parse_error"], "", "no error", source=src, format=f.name)
    text = handler.pofile_to_str(template) if name == "PO" else template
    expect(got["template"], text, "the template", source=src, format=f.name)
    expect(len(got["stringset"]), len(strings), "the number of strings",
           source=src, format=f.name)
    for s, j in zip(strings, got["stringset"]):
        for k in FIELDS:
            if hasattr(s, k):
                expect(j[k], json.loads(json.dumps(getattr(s, k))),
                       "the %s of a string" % k, source=src, format=f.name)
        expect(j["id"], s.template_replacement, "the identity of a string",
               source=src, format=f.name)
        expect(dict((int(k), t) for k, t in j["strings"].items()),
               dict(s._strings), "the texts of a string", source=src,
               format=f.name)
    if not compiles:
        return
    n = len(strings)
    masks = range(1 << n) if n <= 4 else [0, (1 << n) - 1] + [
        (1 << n) - 1 - (1 << i) for i in range(n)]
    for mask in masks:
        for change in (False, True):
            chosen, asked = [], []
            for i, s in enumerate(strings):
                if not mask >> i & 1:
                    continue
                j = copy.deepcopy(got["stringset"][i])
                if change:
                    j["strings"] = dict((k, "T%d-%s é" % (i, k))
                                        for k in j["strings"])
                o = copy.copy(s)
                if change:
                    o._strings = dict((int(k), t)
                                      for k, t in j["strings"].items())
                chosen.append(o)
                asked.append(j)
            ctx.step(2)
            try:
                want, bad = cls().compile(text, chosen), None
            except Exception as e:
                want, bad = "", e
            again = api(action="compile", handler=name, stringset=asked,
                        template=got["template"])
            ctx.outcome(want)
            if bad is not None:
                expect(error(bad) in again["compile_error"], True,
                       "the error of compiling", source=src, format=f.name,
                       said=last_line(again["compile_error"]), meant=repr(bad))
                continue
            expect((again["compiled"], again["compile_error"]), (want, ""),
                   "the compiled file", source=src, format=f.name,
                   mask=mask, change=change)


# -- saving -----------------------------------------------------------------

OPS = [("save", i) for i in range(len(PAYLOADS))] + [
    ("open", i) for i in range(len(PAYLOADS))] + [
    ("home",), ("parse",), ("broken",)]
SRT = "1\n00:00:01,000 --> 00:00:02,000\nx\n"


def digest(text):
    from hashlib import md5
    return md5(text.encode("utf-8")).hexdigest()


def shown(page):
    """The payload that a page hands to its script."""
    m = re.search(r"payload_json = JSON\.parse\('(.*?)'\);", page)
    if not m:
        return None
    return re.sub(r"\\u([0-9A-Fa-f]{4})", lambda m: chr(int(m.group(1), 16)),
                  m.group(1))


def history(ctx, ops):
    from testbed.main.models import Payload
    c = web()
    Payload.objects.all().delete()
    saved = set()
    for op in ops:
        ctx.step()
        if op[0] == "save":
            text = PAYLOADS[op[1]]
            r = c.post("/save/", {"payload": text})
            saved.add(text)
            expect((r.status_code, r.get("Location")),
                   (302, "/" + digest(text)), "where saved work is",
                   history=ops)
        elif op[0] == "open":
            text = PAYLOADS[op[1]]
            r = c.get("/" + digest(text))
            if text in saved:
                expect(r.status_code, 200, "saved work opens", history=ops)
                expect(shown(r.content.decode("utf-8")), text,
                       "the saved work", history=ops)
            else:
                expect(r.status_code, 404, "work never saved", history=ops)
        elif op[0] == "home":
            page = c.get("/").content.decode("utf-8")
            expect(shown(page), None, "an empty page", history=ops)
            names = re.findall(r'<option value="([^"]+)">', page)
            expect(set(x.plain().name for x in FORMATS) - set(names), set(),
                   "the formats offered", history=ops)
            expect(len(names), len(set(names)), "formats offered twice",
                   history=ops)
        elif op[0] == "parse":
            a = api(action="parse", handler="SRT", source=SRT)
            expect((a["parse_error"], [s["strings"] for s in a["stringset"]]),
                   ("", [{"5": "x"}]), "a file parsed", history=ops)
        else:
            a = api(action="parse", handler="SRT", source="1\nx\n")
            expect((bool(a["parse_error"]), a["stringset"]), (True, []),
                   "a wrong file parsed", history=ops)
        rows = sorted(p.payload for p in Payload.objects.all())
        expect(rows, sorted(saved), "what is kept", history=ops)
    ctx.state(ops)
    ctx.outcome(tuple(sorted(saved)))


def choose(ctx, f):
    import io
    cls = f.plain()
    ctx.step()
    got = api(action="choose_handler", handler=cls.name)
    path = os.path.join(REPO, "openformats", "tests", "formats", "".join(
        ch for ch in cls.name if ch.isalnum()).lower(), "files", "1_en." +
        cls.extension)
    want = {"handler": cls.name}
    if os.path.exists(path):
        with io.open(path, encoding="utf-8") as fd:
            want["source"] = fd.read()
    ctx.state(("choose", f.name))
    expect(got, want, "the sample of a format")


def shards(tier):
    out = [("docs", i) for i in range(len(FORMATS))]
    out += [("damaged", i) for i in range(len(FORMATS))]
    out += [("history", i) for i in range(len(OPS))]
    return out


def explore(ctx, shard):
    kind, i = shard
    web()
    if kind == "docs":
        f = FORMATS[i]
        ctx.scope(f.name)
        ctx.case(choose, ctx, f, replay=f.name)
        for d in f.docs(3 if ctx.thorough else 2):
            src = f.doc(d)
            for conv in (src, src.replace("\n", "\r\n")):
                ctx.case(parse_trace, ctx, f, conv, True,
                         replay=(f.name, conv))
        ctx.sample(src)
    elif kind == "damaged":
        from vp.checks import c38
        f = FORMATS[i]
        seen = set()
        tokens = c38.TOKENS[c38.KIND[f.name]]
        for k, (u, _) in enumerate(f.units):
            for n, src in enumerate(c38.damaged(f.doc((u,) * max(f.need, 1)),
                                                tokens)):
                if not ctx.thorough and (n + k) % 4:
                    continue
                if src not in seen:
                    seen.add(src)
                    ctx.case(parse_trace, ctx, f, src, False,
                             replay=(f.name, src))
    else:
        for rest in itertools.product(OPS, repeat=4 if ctx.thorough else 3):
            ops = (OPS[i],) + rest
            ctx.case(history, ctx, ops, replay=ops)
