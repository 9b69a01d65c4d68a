"""ICU plural messages with a known structure."""
from __future__ import unicode_literals

RULES = ["zero", "one", "two", "few", "many", "other"]
NUM = {r: i for i, r in enumerate(RULES)}


class Icu(object):
    """prefix + region + suffix; ``forms`` is [(rule text, message)]."""

    def __init__(self, kw, forms, w1="", w2=" ", gap=" ", sep=" ", tail="",
                 lead="", trail=""):
        self.forms = forms
        self.prefix = "%s{%s%s%s,%s%s%s,%s" % (
            lead, w1, kw, w1, w2, "plural", w1, w2)
        self.region = sep.join("%s%s{%s}" % (r, gap, t) for r, t in forms)
        self.suffix = tail + "}" + trail
        self.raw = self.prefix + self.region + self.suffix

    @property
    def value(self):
        eq = {"=0": "zero", "=1": "one", "=2": "two"}
        return {NUM[eq.get(r, r)]: t for r, t in self.forms}


def render(value):
    """Compiled form of a plural region: rules in the order given."""
    return " ".join("%s {%s}" % (RULES[r], t) for r, t in value.items())


VARIANTS = [
    dict(kw="cnt", forms=[("one", "# tip"), ("other", "# tips")]),
    dict(kw="plural", forms=[("one", "one {x}"), ("other", "{cnt} {x}")],
         w1=" ", gap=""),
    dict(kw="item_count", w2="  ", sep="  ", tail=" ", lead=" ", trail=" ",
         forms=[("other", "it's {n}"), ("one", "it's")]),
    dict(kw="n-1", w2="", sep="", gap="",
         forms=[(r, r[0].upper()) for r in RULES]),
    dict(kw="n", forms=[("other", "only {a {b}}")]),
    dict(kw="one", forms=[("one", ""), ("few", " "), ("other", "one {x}, ,")],
         sep="\\n ", tail="\\n"),
    dict(kw="other", forms=[("zero", "\\\"q\\\""), ("other", "\\\\ \u03b1")]),
]


def variants():
    return [Icu(**v) for v in VARIANTS]
