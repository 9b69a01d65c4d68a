"""An independent model of PO files: entries, canonical text, tiny reader."""
from __future__ import unicode_literals

import re

ESC = {"\\": "\\\\", "\"": "\\\"", "\n": "\\n", "\t": "\\t", "\r": "\\r",
       "\x07": "\\a", "\b": "\\b", "\x0b": "\\v", "\f": "\\f"}
UNESC = {v[1]: k for k, v in ESC.items()}


def esc(text):
    return "".join(ESC.get(c, c) for c in text)


def unesc(text):
    out, i = "", 0
    while i < len(text):
        if text[i] == "\\":
            out += UNESC[text[i + 1]]
            i += 2
        else:
            out += text[i]
            i += 1
    return out


def field(name, text, mark=""):
    """Canonical PO text of one field (short lines)."""
    lines = re.findall(r"[^\n]*\n|[^\n]+", text)
    if len(lines) > 1:
        lines = [""] + lines
    lines = lines or [""]
    return "".join("%s%s\"%s\"\n" % (mark, name + " " if n == 0 else "",
                                     esc(l)) for n, l in enumerate(lines))


class Entry(object):
    def __init__(self, msgid, plural="", msgstr="", ctxt=None, comment="",
                 tcomment="", occ=(), flags=(), previous=None,
                 obsolete=False):
        self.msgid, self.plural, self.msgstr = msgid, plural, msgstr
        self.ctxt, self.comment, self.tcomment = ctxt, comment, tcomment
        self.occ, self.flags, self.previous = tuple(occ), tuple(flags), previous
        self.obsolete = obsolete

    def text(self, msgstr=None):
        msgstr = self.msgstr if msgstr is None else msgstr
        mark = "#~ " if self.obsolete else ""
        out = ""
        if not self.obsolete:
            for l in self.comment.split("\n") if self.comment else ():
                out += "#. %s\n" % l
        for l in self.tcomment.split("\n") if self.tcomment else ():
            out += "# %s\n" % l
        if not self.obsolete:
            if self.occ:
                out += "#: %s\n" % " ".join(
                    ":".join(o) if o[1] else o[0] for o in self.occ)
        if self.flags:
            out += "#, %s\n" % ", ".join(self.flags)
        if self.previous:
            out += "#| msgid \"%s\"\n" % esc(self.previous)
        if self.ctxt is not None:
            out += field("msgctxt", self.ctxt, mark)
        out += field("msgid", self.msgid, mark)
        if self.plural:
            out += field("msgid_plural", self.plural, mark)
        if isinstance(msgstr, dict):
            for k in sorted(msgstr):
                out += field("msgstr[%d]" % k, msgstr[k], mark)
        else:
            out += field("msgstr", msgstr, mark)
        return out

    # -- what the handler should make of it -----------------------------
    @property
    def key(self):
        def e(t):
            return t.replace("\\", "\\\\").replace(":", "\\:")
        return e(self.msgid) + (":" + e(self.plural) if self.plural else "")

    @property
    def status(self):
        vals = (list(self.msgstr.values()) if isinstance(self.msgstr, dict)
                else [self.msgstr])
        if any(v.strip() for v in vals):
            return "FULL" if all(vals) else "BROKEN"
        return "EMPTY" if not any(vals) else "SPACES"

    @property
    def fuzzy(self):
        return "fuzzy" in self.flags

    @property
    def ident(self):
        return (self.key, self.ctxt or "")


HEAD = "# head\n%smsgid \"\"\nmsgstr \"Content-Type: text/plain\\n\"\n"
HEADS = {
    "plain": ("# head\nmsgid \"\"\nmsgstr \"\"\n",) * 2,
    "meta": ("# head\n# two\nmsgid \"\"\nmsgstr \"\"\n\"Language: en\\n\"\n"
             "\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n",) * 2,
    "fuzzy": ("# head\n#, fuzzy\nmsgid \"\"\nmsgstr \"\"\n"
              "\"Language: en\\n\"\n\"X-Long: y\\n\"\n",) * 2,
    # written with an empty comment line
    "bare": ("msgid \"\"\nmsgstr \"\"\n",
             "# \nmsgid \"\"\nmsgstr \"\"\n"),
}


def document(head, texts):
    return head + "".join("\n" + t for t in texts)


def read(text):
    """A tiny PO reader: [(comments, {field: text})]."""
    out, fields, notes, cur = [], {}, [], None

    def flush():
        if fields:
            out.append((tuple(notes), dict(fields)))
            fields.clear()
            del notes[:]
    for line in text.split("\n"):
        if line.startswith("#~ "):
            line = line[3:]
            notes_obsolete = True
        else:
            notes_obsolete = False
        if not line.strip():
            flush()
            continue
        if line.startswith("#"):
            if fields:
                flush()
            notes.append(line)
            continue
        m = re.match(r'^(msg\w+(?:\[\d+\])?) "(.*)"$', line)
        if m:
            cur = m.group(1)
            if cur in fields:
                raise ValueError("repeated " + cur)
            fields[cur] = unesc(m.group(2))
            if notes_obsolete and "#~" not in notes:
                notes.append("#~")
        else:
            m = re.match(r'^"(.*)"$', line)
            if not m or cur is None:
                raise ValueError("unexpected line %r" % line)
            fields[cur] += unesc(m.group(1))
    flush()
    return out
