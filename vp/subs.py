"""Shared by the subtitle checks: files made of cues and separators."""
from __future__ import unicode_literals

import itertools
import re

from vp.core import Violation, expect
from vp.docs import S, compare_stringset, dos, translated


class File(object):
    """parts: literal texts and cues (head, text, S or None).

    A cue is one section of the file: it disappears as a whole when its text
    has no translation."""

    def __init__(self, parts):
        self.parts, self.strings = parts, [
            p[2] for p in parts if isinstance(p, tuple) and p[2] is not None]

    def fill(self, values, keep=lambda i: True):
        out, n = "", 0
        for p in self.parts:
            if not isinstance(p, tuple):
                out += p
            elif p[2] is None:
                out += p[0] + p[1]
            else:
                if keep(n):
                    out += p[0] + values[n]
                n += 1
        return out


VALUES = [lambda i: "T%d" % i, lambda i: "<i>T\n\\1 %d</i> --> {}" % i,
          lambda i: " \u03b1 %d" % i]


def check_file(ctx, H, f, masks=True, newlines=(False, True)):
    raws = [s.raw for s in f.strings]
    for is_dos in newlines:
        conv = dos if is_dos else (lambda t: t)
        src = conv(f.fill(raws))
        if is_dos and "\n" not in src:
            continue
        ctx.step()
        tmpl, got = H().parse(src, is_source=True)
        compare_stringset(got, f.strings, src)
        expect(tmpl, conv(f.fill([g.template_replacement for g in got])),
               "template", source=src)
        ctx.step()
        out = H().compile(tmpl, iter(got))
        expect(out, src, "compiling the unchanged strings", template=tmpl)
        n = len(got)
        for mask in range(2 ** n if masks else 1):
            full = mask if masks else 2 ** n - 1
            val = VALUES[mask % len(VALUES)]
            vals = [val(i) for i in range(n)]

            def keep(i):
                return bool(full >> i & 1)
            ctx.step()
            out = H().compile(tmpl, [translated(got, i, v)
                                     for i, v in enumerate(vals) if keep(i)])
            expect(out, conv(f.fill(vals, keep)), "compiling translations",
                   source=src, template=tmpl, present=full)
            ctx.outcome(out)


def check_refused(ctx, H, src, line, exact=True):
    from openformats.exceptions import ParseError
    for conv in (lambda t: t, dos):
        ctx.step()
        try:
            H().parse(conv(src))
        except ParseError as e:
            m = re.search(r"line (\d+)", str(e))
            if exact and (not m or int(m.group(1)) != line):
                raise Violation("the error names the wrong line",
                                source=src, error=str(e), want=line)
            ctx.outcome(str(e))
            continue
        raise Violation("a malformed file is accepted", source=conv(src))
