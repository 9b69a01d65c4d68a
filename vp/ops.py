"""Operations of a handler and everything that can be observed of them."""
from __future__ import unicode_literals

import re

from vp import corpus

FIELDS = ("key", "context", "pluralized", "order", "developer_comment",
          "character_limit", "occurrences", "flags", "fuzzy", "obsolete",
          "tags", "string_hash", "template_replacement")


def describe(s):
    d = [getattr(s, a) for a in FIELDS]
    return repr(d + sorted(s.strings.items()))


def translations(strings, text="T%d"):
    from openformats.strings import OpenString
    out = []
    for i, s in enumerate(strings):
        value = ({r: (text + " form %d") % (i, r) for r in s.string}
                 if s.pluralized else text % i)
        o = OpenString(s.key, value, pluralized=s.pluralized)
        for a in ("context", "order", "character_limit", "occurrences",
                  "developer_comment", "flags", "tags", "fuzzy", "obsolete"):
            setattr(o, a, getattr(s, a))
        if hasattr(s, "template_style"):
            pass
        o.__dict__.update({k: v for k, v in s.__dict__.items()
                           if k not in o.__dict__})
        out.append(o)
    return out


def text_of(f, template):
    return str(template) if f.name in ("po", "pot") else template


class Ops(object):
    """docs: texts.  Operations are ("parse", i), ("compile", i, how) and
    ("sync", i, which); their templates and strings come from a handler of
    their own, once per process."""

    def __init__(self, f, docs, lines=False):
        self.f, self.docs, self.lines = f, docs, lines
        self.base = []
        for d in docs:
            try:
                self.base.append(f.parse(d))
            except Exception:
                self.base.append(None)

    def ops(self):
        out = [("parse", i) for i in range(len(self.docs))]
        for i, b in enumerate(self.base):
            if b is None:
                continue
            out += [("compile", i, "same"), ("compile", i, "words")]
            if self.lines:
                out.append(("compile", i, "lines"))
            if b[1]:
                out.append(("compile", i, "fewer"))
            if self.f.sync:
                out += [("sync", i, "all"), ("sync", i, "fewer")]
                if i:
                    out.append(("sync", i, "other"))
        return out

    def inputs(self, op):
        if op[0] == "parse":
            return (self.docs[op[1]],)
        template, strings = self.base[op[1]]
        if self.f.name in ("po", "pot"):
            # the template of PO files is an object that changes
            template = self.f.parse(self.docs[op[1]])[0]
        how = op[2]
        if how == "words":
            strings = translations(strings)
        elif how == "lines":
            strings = translations(strings, " T%d\n  more\n")
        elif how == "fewer":
            strings = translations(strings)[:-1]
        elif how == "other":
            j = [j for j, b in enumerate(self.base) if b is not None][0]
            strings = translations(self.base[j][1])
        return template, list(strings)

    def run(self, op, handler, given=None):
        """The observation of one operation, as a value."""
        f = self.f
        args = given or self.inputs(op)
        before = self.frozen(args)
        try:
            if op[0] == "parse":
                t, s = f.parse(args[0], handler)
                seen = ("parsed", text_of(f, t), [describe(x) for x in s])
            elif op[0] == "compile":
                seen = ("compiled", f.compile(args[0], args[1], handler))
            else:
                seen = ("synced", text_of(f, handler.sync_template(*args)))
        except Exception as e:
            # (PyPy's JSON reader writes random bytes for a character that is
            # not ASCII)
            seen = ("raised", type(e).__name__, re.sub(
                "(?s)(Unexpected '|Invalid .escape: ).*?(?=line [0-9])",
                r"\1", str(e)))
        if op[0] == "sync":
            return seen, None
        return seen, (before, self.frozen(args))

    def frozen(self, args):
        if len(args) == 1:
            return args
        # the PO template belongs to the handler; other templates are texts
        return (None if self.f.name in ("po", "pot") else args[0],
                [describe(s) for s in args[1]])


def canonical(obj, seen=None, depth=0):
    """A handler and all it refers to, as a value."""
    seen = seen if seen is not None else {}
    if obj is None or isinstance(obj, (bool, int, float, str, bytes, type)):
        return repr(obj)
    if id(obj) in seen:
        return "@%d" % seen[id(obj)]
    seen[id(obj)] = len(seen)
    if isinstance(obj, dict):
        return "{%s}" % ",".join("%s:%s" % (
            canonical(k, seen, depth + 1), canonical(v, seen, depth + 1))
            for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return "[%s]" % ",".join(canonical(v, seen, depth + 1) for v in obj)
    if isinstance(obj, (set, frozenset)):
        return "<%s>" % ",".join(sorted(map(repr, obj)))
    out = type(obj).__name__
    if isinstance(obj, list):
        out += canonical(list(obj), seen, depth + 1)
    if depth < 40 and hasattr(obj, "__dict__"):
        return out + canonical(obj.__dict__, seen, depth + 1)
    slots = getattr(type(obj), "__slots__", ())
    return out + canonical({a: getattr(obj, a, None) for a in slots}, seen,
                           depth + 1)
