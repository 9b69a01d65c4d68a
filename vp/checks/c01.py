"""C01 - the transcriber: explicit-state search over operation sequences.

Alphabet: every public operation with tiny argument domains, over a set of
sources that mixes newline conventions.  States are (source, pointer, live
chunks, newline count); BFS with de-duplication on the *model* state.  Every
transition replays the whole history on a fresh real object and compares the
four public observables with the model.
"""
from __future__ import unicode_literals

import collections

from vp.core import Violation, expect

SOURCES_QUICK = [
    "ab\ncd", "a\r\nb\r\ncd", "\nx\n", "\r\n\r\n", "", "a\rb\nc",
    "a\r\nb\nc", "a\nb\r\nc", "\u03b1\n\U0001f600b",
]
SOURCES_THOROUGH = SOURCES_QUICK + [
    "abc", "\n", "\r\nab", "ab\r\n", "a\n\nb\n\n", "\ra\nb", "a\r\n\r\n\nb",
]
DEEP = ["ab\ncd", "a\r\nb\r\ncd"]
ADDS = ["x", "p\nq", "r\r\ns", ""]


def bounds(tier):
    return {
        "sources": SOURCES_QUICK if tier == "quick" else SOURCES_THOROUGH,
        "depth": "5" if tier == "quick" else
                 "5, and 6 for the sources %r" % (DEEP,),
        "sections": "every history of up to %d add, mark and remove "
                    "operations" % (8 if tier == "quick" else 9),
        "added_texts": ADDS,
        "observables": ["destination as detected", "destination forced DOS",
                        "destination forced UNIX (for UNIX sources and "
                        "CR-free added text)", "line number", "pointer"],
    }


class Model(object):
    """A string, a cursor and a list of chunks."""

    def __init__(self, raw):
        first = raw.find("\n")
        self.dos = first > 0 and raw[first - 1] == "\r"
        self.source = raw.replace("\r\n", "\n") if self.dos else raw
        self.ptr = 0
        self.lines = 0
        self.out = []        # text | "[" mark | "]" mark
        self.crlf_added = False
        self.went_back = False

    def clone(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.out = list(self.out)
        return m

    def key(self):
        return (self.ptr, self.lines, tuple(self.out), self.crlf_added,
                self.went_back)

    def ops(self):
        n = len(self.source)
        for k in (1, 3):
            yield ("copy", k)
            yield ("skip", k)
        for end in sorted({self.ptr, min(self.ptr + 2, n), n,
                           max(0, self.ptr - 1)}):
            yield ("copy_until", end)
            yield ("skip_until", end)
        yield ("copy_to_end",)
        for t in ADDS:
            yield ("add", t)
        yield ("mark_section_start",)
        yield ("mark_section_end",)
        for place in (0, 1):
            if self.section(place) is not None:
                yield ("remove_section", place)

    def section(self, place):
        """(start, end) of the place-th latest live section; None when there
        is none or when its extent is ambiguous (a closed section inside)."""
        starts = [i for i, c in enumerate(self.out) if c == ("[",)]
        if place >= len(starts):
            return None
        s = starts[-1 - place]
        e = next((i for i in range(s, len(self.out))
                  if self.out[i] == ("]",)), None)
        if e is None:
            return s, len(self.out) - 1
        inner = [i for i in starts if s < i < e]
        if inner:
            return None
        return s, e

    def apply(self, op):
        name = op[0]
        if name in ("copy", "copy_until", "copy_to_end", "skip",
                    "skip_until"):
            if name in ("copy", "skip"):
                end = self.ptr + op[1]
            elif name == "copy_to_end":
                end = len(self.source)
            else:
                end = op[1]
            text = self.source[self.ptr:end] if end > self.ptr else ""
            if end < self.ptr:
                self.went_back = True
            self.ptr = end
            self.lines += text.count("\n")
            if name.startswith("copy"):
                self.out.append((text, "src"))
        elif name == "add":
            self.out.append((op[1], "add"))
            if "\r" in op[1]:
                self.crlf_added = True
        elif name == "mark_section_start":
            self.out.append(("[",))
        elif name == "mark_section_end":
            self.out.append(("]",))
        elif name == "remove_section":
            s, e = self.section(op[1])
            # holes are kept: they are part of the state
            self.out[s:e + 1] = [("-",)] * (e + 1 - s)

    def text(self, dos):
        parts = []
        for c in self.out:
            if len(c) == 1:
                continue
            t = c[0]
            if dos:
                t = t.replace("\r\n", "\n").replace("\n", "\r\n")
            parts.append(t)
        return "".join(parts)


def run_history(raw, hist):
    from openformats.transcribers import Transcriber
    t = Transcriber(raw)
    for op in hist:
        getattr(t, op[0])(*op[1:])
    return t


def check(ctx, raw, hist, model):
    t = run_history(raw, hist)
    ctx.step(len(hist))
    expect(t.source, model.source, "source normalisation", hist=hist)
    n = len(model.source)
    expect(min(t.ptr, n), min(model.ptr, n), "pointer", hist=hist)
    got = t.get_destination()
    expect(got, model.text(model.dos), "destination", hist=hist)
    expect(t.get_destination(enforce_newline_type="DOS"), model.text(True),
           "destination with DOS newlines enforced", hist=hist)
    if "\r" not in model.source and not model.crlf_added:
        expect(t.get_destination(enforce_newline_type="UNIX"),
               model.text(False),
               "destination with UNIX newlines enforced", hist=hist)
    if not model.went_back:
        expect(t.line_number, model.lines + 1, "line number", hist=hist)
    # observing must not change anything
    expect(t.get_destination(), got, "reading the destination changed it",
           hist=hist)
    ctx.outcome((raw, got, t.line_number, t.ptr))


def sections(ctx, prefix):
    """Histories of section operations only, deeper; every added text is
    new, so that each chunk can be told apart."""
    depth = 9 if ctx.thorough else 8
    raw = "abc"
    stack = [(list(prefix), None)]
    while stack:
        hist, model = stack.pop()
        if model is None:
            model = Model(raw)
            for op in hist:
                if op[0] == "remove_section" and \
                        model.section(op[1]) is None:
                    return
                model.apply(op)
        ctx.distinct()
        ctx.case(check, ctx, raw, hist, model,
                 replay={"source": raw, "ops": hist})
        if len(hist) >= depth:
            continue
        for op in section_ops(model, len(hist)):
            nxt = model.clone()
            nxt.apply(op)
            stack.append((hist + [op], nxt))


def section_ops(model, n):
    if model is None or model.out[-1:] and len(model.out[-1]) == 1:
        # two texts in a row are one text
        yield ("add", chr(65 + n))
    yield ("mark_section_start",)
    yield ("mark_section_end",)
    for place in (0, 1, 2):
        if model is not None and model.section(place) is not None:
            yield ("remove_section", place)


def shards(tier):
    for op in section_ops(None, 0):
        for op2 in (("add", "B"), ("mark_section_start",),
                    ("mark_section_end",), ("remove_section", 0)):
            for op3 in (("add", "C"), ("mark_section_start",),
                        ("mark_section_end",), ("remove_section", 0),
                        ("remove_section", 1)):
                yield ("sections", (op, op2, op3))
    for raw in bounds(tier)["sources"]:
        first = Model(raw)
        for op in first.ops():
            yield (raw, op)


def explore(ctx, shard):
    raw, op0 = shard
    if raw == "sections":
        return sections(ctx, op0)
    depth = 6 if ctx.thorough and raw in DEEP else 5
    root = Model(raw)
    ctx.case(check, ctx, raw, [], root, replay={"source": raw, "ops": []})
    first = root.clone()
    first.apply(op0)
    queue = collections.deque([([op0], first)])
    seen = {first.key()}
    while queue:
        hist, model = queue.popleft()
        ctx.case(check, ctx, raw, hist, model,
                 replay={"source": raw, "ops": hist})
        ctx.state((raw, model.key()))
        if len(hist) >= 4:
            ctx.sample({"source": raw, "ops": hist,
                        "destination": model.text(model.dos)})
        if len(hist) >= depth:
            continue
        for op in model.ops():
            nxt = model.clone()
            nxt.apply(op)
            k = nxt.key()
            if k in seen:
                continue
            seen.add(k)
            queue.append((hist + [op], nxt))
