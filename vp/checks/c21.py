"""C21 - YAML files generated without a template hold the chosen entries.

A document is a tree of mappings and lists in block or flow style, with texts
in every style, tagged texts, numbers and plural entries.  Its file is written
here, read by the handler, and every subset of the strings is generated from
scratch: what a plain YAML reader then finds must be the tree restricted to
these strings (list items closing up), with the translations for texts.
"""
from __future__ import unicode_literals

import itertools
from collections import OrderedDict

import yaml

from vp.core import expect

STYLES = ("", "'", '"', "|", ">")
KEYS = ("a", "b c", "ke", "d.e", "f", "g")
SPECIAL = (0, "x.y.", 7, -3, "7", "é", "[0]x", "x[1]", "[a]", "yes", "null",
           "a:b", "<b>", "- z", "#k", "block", "!k", "Z z")
CHARS = ("a", " ", "\n", ":", "#", "\t", "-", '"', "'", "\u2028", "\x85",
         "é", "\U0001f600", "%", "\\", "1", "~", "{", "]", ",", "!", "&", "*",
         "|", ">", "@", "`", "?", "=", "\xa0", "\u200b", "\ufeff", ".", "\x07")
RULES = (1, 5)
NAMES = {0: "zero", 1: "one", 2: "two", 3: "few", 4: "many", 5: "other"}


def bounds(tier):
    return {"trees": "all of one and two texts, numbers and plural entries "
            "three levels deep, of three two levels deep (block style: three "
            "levels deep)" + ("" if tier == "quick" else ", of three in every "
                              "style three levels deep, of four two levels "
                              "deep"),
            "subsets": "all", "texts": "all of up to %d of %d characters in "
            "every style and depth" % (2 if tier == "quick" else 3,
                                       len(CHARS))}


ASSUMPTIONS = ("keys that look like list indexes or like <number>, and keys "
               "other than texts and whole numbers, are ambiguous and not "
               "considered",
               "the kind of quotes around tagged plain texts and plural forms "
               "may change")


# -- documents --------------------------------------------------------------
# ("s", style, tag) | ("n",) | ("p", flow) | ("m"|"l", flow, children)

def leaves(n18n):
    out = [("s", "", None), ("n",)]
    if n18n:
        out += [("p", False)]
    return out


def trees(n, depth, flow, plural):
    """All nodes with n leaves in at most depth levels of collections."""
    if n == 1:
        yield ("s", "", None)
        yield ("n",)
    if plural and n == 1:
        yield ("p", flow)
    if depth:
        for kind in "ml":
            for fl in (True,) if flow else (False, True):
                for ch in forests(n, depth - 1, fl, plural and kind == "m"):
                    yield (kind, fl, ch)


def forests(n, depth, flow, plural):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, depth, flow, plural):
            for rest in forests(n - k, depth, flow, plural):
                yield (first,) + rest


def keyed(children, keys, counter):
    return [(keys[next(counter) % len(keys)], c) for c in children]


def scalar(style, value, indent):
    if style == "'":
        return "'%s'" % value
    if style == '"':
        return '"%s"' % value
    if style in ("|", ">"):
        return style + "\n" + " " * indent + value + "\n"
    return value


def write_key(key):
    if isinstance(key, int) or key.isalpha() and key not in ("yes", "null"):
        return "%s" % key
    return '"%s"' % key


class Writer(object):
    """Writes a tree with its texts numbered and collects the strings."""

    def __init__(self, keys, step):
        self.keys, self.step = keys, step
        self.counter = itertools.count()
        self.texts = itertools.count(1)

    def flow(self, node):
        kind = node[0]
        if kind == "s":
            t = "%sv%d" % ("!%s " % node[2] if node[2] else "",
                           next(self.texts)) if not node[1] else None
            if t is None:
                t = ("!%s " % node[2] if node[2] else "") + scalar(
                    node[1], "v%d" % next(self.texts), 0)
            return t, None
        if kind == "n":
            return "12", None
        if kind == "p":
            n = next(self.texts)
            return "{one: o%d, other: v%d}" % (n, n), None
        parts = []
        shape = []
        for c in node[2]:
            if kind == "m":
                key = self.key()
                text, sub = self.flow(c)
                parts.append("%s: %s" % (write_key(key), text))
                shape.append((key, sub))
            else:
                text, sub = self.flow(c)
                parts.append(text)
                shape.append((None, sub))
        return ("{%s}" if kind == "m" else "[%s]") % ", ".join(parts), shape

    def key(self):
        n = next(self.counter)
        return self.keys[n]

    def block(self, node, indent):
        """The lines after 'key:' or '-', first one on the same line, and the
        keys of the tree."""
        kind = node[0]
        if kind in "ml" and node[1] or kind == "n":
            text, shape = self.flow(node)
            return " " + text + "\n", shape
        if kind == "s":
            tag = " !%s" % node[2] if node[2] else ""
            text = scalar(node[1], "v%d" % next(self.texts),
                          indent + self.step)
            return tag + " " + text.rstrip("\n") + "\n", None
        if kind == "p":
            n = next(self.texts)
            pad = " " * (indent + self.step)
            return "\n%sone: o%d\n%sother: v%d\n" % (pad, n, pad, n), None
        text, shape = self.items(node, indent + self.step)
        return "\n" + text, shape

    def items(self, node, indent):
        pad, out, shape = " " * indent, "", []
        for c in node[2]:
            if node[0] == "m":
                key = self.key()
                body, sub = self.block(c, indent)
                out += pad + write_key(key) + ":" + body
                shape.append((key, sub))
            elif c[0] in "ml" and not c[1]:
                body, sub = self.items(c, indent + 2)
                out += pad + "- " + body[indent + 2:]
                shape.append((None, sub))
            else:
                body, sub = self.block(c, indent)
                out += pad + "-" + body
                shape.append((None, sub))
        return out, shape


class Tagged(object):
    def __init__(self, tag, value):
        self.pair = (tag, value)

    def __eq__(self, other):
        return isinstance(other, Tagged) and self.pair == other.pair

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return "!%s %r" % self.pair


def wanted(node, shape, chosen, texts, tags, level=0, forms=None):
    """The data of the chosen texts, None if there is none of them."""
    kind = node[0]
    if kind == "n":
        return None
    if kind in "sp":
        n = next(texts)
        if n not in chosen:
            return None
        value = chosen[n]
        if kind == "p":
            return [(NAMES[r], value[r]) for r in forms]
        if node[2] and (tags or level == 1):
            return Tagged(node[2], value)
        return value
    out = []
    for (key, sub), c in zip(shape, node[2]):
        value = wanted(c, sub, chosen, texts, tags, level + 1, forms)
        if value is not None:
            out.append((key, value) if kind == "m" else value)
    if not out:
        return None
    return out if kind == "m" else tuple(out)


class Loader(yaml.SafeLoader):
    pass


def pairs(loader, node):
    return [(loader.construct_object(k, deep=True),
             loader.construct_object(v, deep=True)) for k, v in node.value]


def sequence(loader, node):
    return tuple(loader.construct_object(v, deep=True) for v in node.value)


def tagged(loader, suffix, node):
    return Tagged(suffix, loader.construct_scalar(node))


Loader.add_constructor("tag:yaml.org,2002:map", pairs)
Loader.add_constructor("tag:yaml.org,2002:seq", sequence)
Loader.add_multi_constructor("!", tagged)


def handler(i18n, rules=RULES):
    from openformats.formats.yaml import I18nYamlHandler, YamlHandler
    h = I18nYamlHandler() if i18n else YamlHandler()
    if i18n:
        h.set_plural_rules(list(rules))
    h.should_use_template = False
    return h


def key_of(path, h):
    return ".".join(path)


def strings_of(node, shape, texts, path=(), styles=()):
    """[(number, key, styles, node)] of the texts of a tree."""
    out = []
    if node[0] == "n":
        return out
    if node[0] in "sp":
        return [(next(texts), ".".join(path), styles, node)]
    n = 0
    for (key, sub), c in zip(shape, node[2]):
        if node[0] == "m":
            k = "<%d>" % key if isinstance(key, int) else key.replace(
                ".", "<TX_DOT>")
        else:
            # (numbers have no index)
            if c[0] == "n":
                continue
            k = "[%d]" % n
            n += 1
        st = styles
        if c[0] in "ml":
            st = styles + ("flow" if c[1] else "block",)
        elif c[0] == "s":
            st = styles + (c[1],)
        out += strings_of(c, sub, texts, path + (k,), st)
    return out


def numbered(s):
    v = s.string if not s.pluralized else s.string[5]
    return int(v.strip()[1:])


def trace(ctx, node, keys, step, i18n, lang, rules, tags):
    """node is the root, a block mapping or list."""
    from openformats.strings import OpenString
    w = Writer(keys, step)
    if i18n:
        body, shape = w.items(node, step)
        src = "en:\n" + body
    else:
        src, shape = w.items(node, 0)
    h = handler(i18n)
    template, strings = h.parse(src)
    ctx.step()
    info = strings_of(node, shape, itertools.count(1))
    # (entries that nothing translatable is below have no strings)
    expect([numbered(s) for s in strings], [i[0] for i in info],
           "the strings", source=src)
    styles = {}
    for s in strings:
        n = numbered(s)
        styles[n] = s.flags
    for n, key, st, leaf in info:
        if leaf[0] == "s":
            expect(styles[n], ":".join(st), "the styles", source=src, key=key)
    for mask in range(1, 1 << len(info)):
        chosen, stringset = {}, []
        for i, s in enumerate(strings):
            if not mask >> i & 1:
                continue
            n = numbered(s)
            if s.pluralized:
                value = dict((r, "T%d-%s" % (n, NAMES[r])) for r in rules)
            else:
                value = "T%d" % n
            chosen[n] = value
            stringset.append(OpenString(
                s.key, value, context=s.context, flags=s.flags,
                pluralized=s.pluralized, order=s.order))
        h2 = handler(i18n, rules)
        if lang:
            h2.set_lang_code(lang)
        out = h2.compile(template, stringset)
        ctx.step(2)
        ctx.state((src, mask, lang))
        want = wanted(node, shape, chosen, itertools.count(1), tags,
                      forms=rules)
        if lang:
            want = [(lang, want)]
        got = yaml.load(out, Loader=Loader)
        ctx.outcome(out)
        expect(got, want, "the generated data", source=src, output=out,
               chosen=sorted(chosen))
        if i18n and not lang:
            continue
        # the styles are kept
        if any(i[3][0] == "p" for i in info) and tuple(rules) != RULES:
            continue
        h3 = handler(i18n, rules)
        _, again = h3.parse(out)
        sets = [(styles[numbered_old(s)], s) for s in again
                if not s.pluralized]
        for st, s in sets:
            leaf = [i for i in info if i[0] == numbered_old(s)][0]
            if leaf[3][2]:
                continue
            expect(s.flags, st, "the styles of a text generated", source=src,
                   output=out)
    return src


def numbered_old(s):
    return int(s.string.strip()[1:])


def styled(node, place, style, tag, counter=None):
    """The tree with the place-th text in another style or tagged, None if
    that can't be written."""
    counter = itertools.count() if counter is None else counter
    if node[0] == "s":
        return ("s", style, tag) if next(counter) == place else node
    if node[0] in "ml":
        return (node[0], node[1], tuple(
            styled(c, place, style, tag, counter) for c in node[2]))
    return node


def leaf_places(node, flow=False, depth=0):
    if node[0] == "s":
        return [(flow, depth)]
    if node[0] in "ml":
        return [p for c in node[2] for p in leaf_places(c, node[1], depth + 1)]
    return []


def keys_in(node):
    if node[0] not in "ml":
        return 0
    return (len(node[2]) if node[0] == "m" else 0) + sum(
        keys_in(c) for c in node[2])


def texts_in(node):
    if node[0] in "sp":
        return 1
    return sum(texts_in(c) for c in node[2]) if node[0] in "ml" else 0


def roots(n, plural, depth=2):
    """Roots of mappings and lists with n leaves."""
    for kind in "ml":
        for ch in forests(n, depth, False, plural and kind == "m"):
            node = (kind, False, ch)
            if texts_in(node):
                yield node


def blocks(node):
    return node[0] not in "mlp" or not node[1] and (
        node[0] == "p" or all(map(blocks, node[2])))


def pool(i18n, big):
    """(root, whether special keys are tried in it)"""
    for n in (1, 2):
        for node in roots(n, i18n):
            yield node, True
    for node in roots(3, i18n, 1):
        yield node, True
    for node in roots(3, i18n):
        if big or blocks(node):
            yield node, False
    if big:
        for node in roots(4, i18n, 1):
            yield node, False


def value_trace(ctx, text, style, flow, depth, last):
    """One text under depth mappings, last: a list item or not."""
    from openformats.strings import OpenString
    h = handler(False)
    key = ".".join(["k"] * depth + (["[0]"] if last else ["z"]))
    flags = ":".join([flow] * (depth) + [style])
    s = OpenString(key, text, flags=flags, order=0)
    ctx.step()
    out = h.compile("k:\n  z: x\n", [s])
    ctx.state((text, flags, last))
    want = (text,) if last else [("z", text)]
    for i in range(depth):
        want = [("k", want)]
    got = yaml.load(out, Loader=Loader)
    expect(got, want, "the generated text", text=text, flags=flags,
           output=out)
    if text.strip():
        _, strings = handler(False).parse(out)
        ctx.step()
        expect([(x.string, x.string_hash) for x in strings],
               [(text, s.string_hash)], "the text read again", text=text,
               flags=flags, output=out)


PARTS = 12


def shards(tier):
    out = [("tree", i18n, p) for p in range(PARTS) for i18n in (0, 1)]
    out += [("style", p) for p in range(PARTS)]
    out += [("value", n) for n in range(len(CHARS))]
    out += [("tag", 0)]
    return out


def explore(ctx, shard):
    kind = shard[0]
    big = ctx.thorough
    if kind == "tree":
        i18n = shard[1]
        ctx.scope("tree", i18n)
        for i, (node, special) in enumerate(pool(i18n, big)):
            if i % PARTS != shard[2]:
                continue
            n = keys_in(node)
            runs = [(KEYS[:n] + tuple("k%d" % j for j in range(n)))[:n]]
            cfgs = [(runs[0], 2, None, RULES)]
            if special:
                cfgs += [(runs[0], 4, None, RULES)]
            if i18n:
                cfgs = [(runs[0], 2, "fr", RULES),
                        (runs[0], 4, "pt_BR", (1, 3, 5))]
            elif special:
                # one special key at every place
                for at in range(n):
                    pick = SPECIAL if n < 2 or big else SPECIAL[(i + at) % 6::6]
                    for k in pick:
                        cfgs.append((runs[0][:at] + (k,) + runs[0][at + 1:],
                                     2, None, RULES))
            for keys, step, lang, rules in cfgs:
                ctx.case(trace, ctx, node, keys, step, i18n, lang, rules,
                         False, replay=(node, keys, step, lang, rules))
    elif kind == "style":
        ctx.scope("style")
        for i, (node, special) in enumerate(pool(False, False)):
            if i % PARTS != shard[1] or not special:
                continue
            n = keys_in(node)
            keys = tuple("k%d" % j for j in range(n))
            for at, (flow, depth) in enumerate(leaf_places(node)):
                for st in STYLES:
                    if flow and st in ("|", ">"):
                        continue
                    for tag in (None, "t"):
                        if tag and depth > 1:
                            continue
                        d = styled(node, at, st, tag)
                        ctx.case(trace, ctx, d, keys, 2, False, None, RULES,
                                 False, replay=d)
    elif kind == "value":
        first = CHARS[shard[1]]
        ctx.scope("value")
        texts = [first] + [first + "".join(r)
                           for n in range(1, 3 if big else 2)
                           for r in itertools.product(CHARS, repeat=n)]
        if not big:
            texts += [first + m + first for m in CHARS]
            texts += ["a" + first + m for m in CHARS]
        for t in texts:
            for st in STYLES:
                for depth in (0, 1, 2):
                    for flow in ("block", "flow") if depth else ("block",):
                        for last in (False, True):
                            ctx.case(value_trace, ctx, t, st, flow, depth,
                                     last, replay=(t, st, flow, depth, last))
    elif kind == "tag":
        ctx.scope("nested tags")
        for st in STYLES:
            for node, sig in (
                    (("m", False, (("m", False, (("s", st, "t"),)),)), "map"),
                    (("m", False, (("l", False, (("s", st, "t"),)),)),
                     "list")):
                ctx.case(trace, ctx, node, ("a", "b"), 2, False, None, RULES,
                         True, replay=node, signature="C21:nested-tag-" + sig)
