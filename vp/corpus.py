"""Small documents of every format, enumerated for the checks that state the
same guarantee for all formats.

A document is a sequence of units between a head and a tail; %n in a unit is
the number of its place, which makes its keys unique; %m is one more.
"""
from __future__ import unicode_literals

import importlib
import itertools


class Fmt(object):
    binary = False

    def __init__(self, name, where, units, head="", sep="", tail="",
                 kwargs=None, need=0, rules=None, sync=False):
        self.name = name
        self.where = where
        self.units = [u if isinstance(u, tuple) else (u, 1) for u in units]
        self.head, self.sep, self.tail = head, sep, tail
        self.kwargs = kwargs or {}
        self.need = need
        self.rules = rules
        self.sync = sync

    def plain(self):
        """The class of the handler."""
        module, cls = self.where.rsplit(".", 1)
        return getattr(importlib.import_module(
            "openformats.formats." + module), cls)

    def handler(self):
        h = self.plain()()
        if self.rules:
            h.set_plural_rules(list(self.rules))
        return h

    def parse(self, content, handler=None):
        return (handler or self.handler()).parse(content, **self.kwargs)

    def compile(self, template, strings, handler=None, **kwargs):
        return (handler or self.handler()).compile(template, strings,
                                                   **kwargs)

    def doc(self, units, head=None):
        return (self.head if head is None else head) + self.sep.join(
            u.replace("%n", str(n)).replace("%m", str(n + 1)) for n, u in enumerate(units)) + self.tail

    def docs(self, upto, start=None):
        """Every sequence of units (as texts) up to a length."""
        pool = [u for u, _ in self.units]
        for n in range(self.need, upto + 1):
            for units in itertools.product(pool, repeat=n):
                yield units


JSON = dict(head="{\n", sep=",\n", tail="\n}\n")
ANDROID = dict(head="<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<resources>\n",
               sep="\n", tail="\n</resources>\n")

FORMATS = [
    Fmt("json", "json.JsonHandler", [
        "  \"k%n\": \"text %n\"",
        "  \"k%n\": {\n    \"a\": \"T%n\",\n    \"b\": [\"x%n\", \"y%n\"]\n  }",
        "  \"p%n\": \"{ n, plural, one {T%n} other {Ts %n} }\"",
        "  \"n%n\": [1, null, true, \"\"]",
        "  \"e.%n\\\\\": \"<&> \\\"%n\\\" \\n \\u00e9\"",
    ], **JSON, sync=True),
    Fmt("structuredjson", "json.StructuredJsonHandler", [
        "  \"k%n\": {\n    \"string\": \"text %n\"\n  }",
        "  \"k%n\": {\n    \"context\": \"c\",\n    \"string\": \"T%n\",\n"
        "    \"developer_comment\": \"d %n\",\n    \"character_limit\": 9\n"
        "  }",
        "  \"p%n\": {\n    \"string\": \"{ n, plural, one {T%n} other {Ts %n} "
        "}\"\n  }",
        "  \"o%n\": {\n    \"a\": {\n      \"string\": \"N%n\"\n    },\n"
        "    \"x\": \"no\"\n  }",
        "  \"e%n\": {\n    \"string\": \"\"\n  }",
    ], **JSON, sync=True),
    Fmt("arb", "json.ArbHandler", [
        "  \"k%n\": \"text %n\"",
        "  \"k%n\": \"T%n\",\n  \"@k%n\": {\n    \"description\": \"d %n\"\n  }",
        "  \"p%n\": \"{ n, plural, one {T%n} other {Ts %n} }\"",
        "  \"@@x%n\": \"meta\"",
        "  \"@o%n\": {\n    \"context\": \"c\"\n  },\n  \"o%n\": \"O%n\"",
    ], **JSON, sync=True),
    Fmt("chrome", "json.ChromeI18nHandler", [
        "  \"k%n\": {\n    \"message\": \"text %n\"\n  }",
        "  \"k%n\": {\n    \"description\": \"d %n\",\n    \"message\": \"T%n\"\n"
        "  }",
        "  \"p%n\": {\n    \"message\": \"{ n, plural, one {T%n} other {Ts %n} "
        "}\"\n  }",
        "  \"e%n\": {\n    \"message\": \"\"\n  }",
    ], **JSON, sync=True),
    Fmt("chromev3", "json.ChromeI18nHandlerV3", [
        "  \"k%n\": {\n    \"message\": \"text %n\"\n  }",
        "  \"k%n\": {\n    \"description\": \"d %n\",\n    \"message\": \"T%n\"\n"
        "  }",
        "  \"p%n\": {\n    \"message\": \"{n, plural, one {T%n} other {Ts %n}}"
        "\"\n  }",
        "  \"x%n\": {\n    \"message\": \"$A%n$ b\",\n    \"placeholders\": {\n"
        "      \"a%n\": {\n        \"content\": \"$1\"\n      }\n    }\n  }",
    ], **JSON),
    Fmt("android", "android.AndroidHandler", [
        "    <string name=\"s%n\">text %n</string>",
        "    <!-- c %n -->\n    <string name=\"s%n\">T%n <b>b</b> \\' &amp;"
        "</string>",
        "    <string-array name=\"a%n\">\n        <item>x%n</item>\n"
        "        <item>y%n</item>\n    </string-array>",
        "    <plurals name=\"p%n\">\n        <item quantity=\"one\">P%n</item>\n"
        "        <item quantity=\"other\">Ps %n</item>\n    </plurals>",
        "    <string name=\"n%n\" translatable=\"false\">no</string>",
        "    <string name=\"e%n\"></string>",
    ], **ANDROID),
    Fmt("android_unescaped", "android_unescaped.AndroidUnescapedHandler", [
        "    <string name=\"s%n\">text %n</string>",
        "    <!-- c %n -->\n    <string name=\"s%n\">T%n <b>b</b> \\' &amp;"
        "</string>",
        "    <string-array name=\"a%n\">\n        <item>x%n</item>\n"
        "        <item>y%n</item>\n    </string-array>",
        "    <plurals name=\"p%n\">\n        <item quantity=\"one\">P%n</item>\n"
        "        <item quantity=\"other\">Ps %n</item>\n    </plurals>",
    ], **ANDROID),
    Fmt("beta_android", "beta_android.BetaAndroidHandler", [
        "    <string name=\"s%n\">text %n</string>",
        "    <!-- c %n -->\n    <string name=\"s%n\">T%n \\' &amp;</string>",
        "    <string-array name=\"a%n\">\n        <item>x%n</item>\n"
        "        <item>y%n</item>\n    </string-array>",
        "    <plurals name=\"p%n\">\n        <item quantity=\"one\">P%n</item>\n"
        "        <item quantity=\"other\">Ps %n</item>\n    </plurals>",
    ], **ANDROID),
    Fmt("stringsdict", "stringsdict.StringsDictHandler", [
        "  <key>k%n</key>\n  <dict>\n"
        "    <key>NSStringLocalizedFormatKey</key>\n"
        "    <string>%#@v@</string>\n    <key>v</key>\n    <dict>\n"
        "      <key>NSStringFormatSpecTypeKey</key>\n"
        "      <string>NSStringPluralRuleType</string>\n"
        "      <key>NSStringFormatValueTypeKey</key>\n"
        "      <string>d</string>\n      <key>one</key>\n"
        "      <string>T%n</string>\n      <key>other</key>\n"
        "      <string>Ts %n</string>\n    </dict>\n  </dict>",
        "  <key>m%n</key>\n  <dict>\n"
        "    <key>NSStringLocalizedFormatKey</key>\n"
        "    <string>a %#@x@ and %#@y@</string>\n    <key>x</key>\n"
        "    <dict>\n      <key>NSStringFormatSpecTypeKey</key>\n"
        "      <string>NSStringPluralRuleType</string>\n"
        "      <key>NSStringFormatValueTypeKey</key>\n"
        "      <string>d</string>\n      <key>other</key>\n"
        "      <string>X%n</string>\n    </dict>\n    <key>y</key>\n"
        "    <dict>\n      <key>NSStringFormatSpecTypeKey</key>\n"
        "      <string>NSStringPluralRuleType</string>\n"
        "      <key>NSStringFormatValueTypeKey</key>\n"
        "      <string>d</string>\n      <key>one</key>\n"
        "      <string>Y%n</string>\n      <key>other</key>\n"
        "      <string>Ys</string>\n    </dict>\n  </dict>",
    ], head="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
            "<plist version=\"1.0\">\n<dict>\n", sep="\n",
        tail="\n</dict>\n</plist>\n"),
    Fmt("customizable_xml", "customizable_xml.CustomizableXMLHandler", [
        "    <string key=\"k%n\">\n      <base>text %n</base>\n    </string>",
        "    <string key=\"v%n\">\n      <base>B%n &amp; <i>b</i></base>\n"
        "      <variant context=\"a\">V%n</variant>\n    </string>",
        "    <string key=\"e%n\">\n      <base></base>\n    </string>",
        "    <!-- <base>c %n</base> -->",
    ], head="<?xml version=\"1.0\"?>\n<strings>\n  <section name=\"s\">\n",
        sep="\n", tail="\n  </section>\n</strings>\n"),
    Fmt("yaml", "yaml.YamlHandler", [
        "k%n: text %n",
        "m%n:\n  # c %n\n  a: \"q %n\"\n  b: 'r %n'",
        "l%n:\n- x%n\n- - y%n\n  - 5\n- {f: g%n, h: [i%n, \"\"]}",
        "b%n: |\n  lines\n  %n\nf%n: >-\n  folded %n",
        "n%n: [1, true, null, 2001-01-01]",
    ], sep="\n", tail="\n"),
    Fmt("yaml_i18n", "yaml.I18nYamlHandler", [
        "  k%n: text %n",
        "  m%n:\n    # c %n\n    a: \"q %n\"\n    b: 'r %n'",
        "  p%n:\n    one: P%n\n    other: \"Ps %n\"",
        "  b%n: |\n    lines\n    %n",
    ], head="en:\n", sep="\n", tail="\n", need=1, rules=(1, 5)),
    Fmt("po", "po.PoHandler", [
        "msgid \"id %n\"\nmsgstr \"text %n\"\n",
        "#. d %n\n#: f.py:%n\n#, python-format\nmsgctxt \"c\"\n"
        "msgid \"id %n\"\nmsgstr \"T%n\"\n",
        "msgid \"p %n\"\nmsgid_plural \"ps %n\"\nmsgstr[0] \"P%n\"\n"
        "msgstr[1] \"Ps %n\"\n",
        "#, fuzzy\nmsgid \"f %n\"\nmsgstr \"F%n\"\n",
        "#~ msgid \"o %n\"\n#~ msgstr \"O%n\"\n",
    ], head="msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; "
            "charset=UTF-8\\n\"\n\"Language: en\\n\"\n\n", sep="\n", sync=True),
    Fmt("pot", "po.PoHandler", [
        "msgid \"id %n\"\nmsgstr \"\"\n",
        "#. d %n\n#: f.py:%n\nmsgctxt \"c\"\nmsgid \"id %n\"\nmsgstr \"\"\n",
        "msgid \"p %n\"\nmsgid_plural \"ps %n\"\nmsgstr[0] \"\"\n"
        "msgstr[1] \"\"\n",
    ], head="msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; "
            "charset=UTF-8\\n\"\n\n", sep="\n", kwargs={"is_source": True}, sync=True),
    Fmt("srt", "srt.SrtHandler", [
        "%m\n00:0%n:00,000 --> 00:0%n:01,500\ntext %n\n",
        "%m\n00:0%n:00,000 --> 00:0%n:01,500\nT%n\n<i>more</i>\n",
    ], sep="\n", need=1),
    Fmt("vtt", "vtt.VttHandler", [
        "00:0%n:00.000 --> 00:0%n:01.500\ntext %n\n",
        "id %n\n00:0%n:00.000 --> 00:0%n:01.500 align:left\nT%n\n"
        "<i>more</i>\n",
        "NOTE\nnote %n\n",
    ], head="WEBVTT\n\n", sep="\n", need=1),
    Fmt("plaintext", "plaintext.PlaintextHandler", [
        "text %n", "  indented %n \t", "", "text", "a <b> & \"c\" %n"],
        sep="\n", tail="\n", need=1),
    Fmt("markdown", "github_markdown.GithubMarkdownHandler", [
        "# Head %n\n", "Text %n\nand more\n", "* item %n\n* item b%n\n",
        "| a%n | b%n |\n| --- | --- |\n| c%n | d%n |\n",
        "```\ncode %n\n```\n", "> quote %n\n", "<p>html %n</p>\n",
        "[ref%n]: http://x.y/ \"Title %n\"\n",
    ], sep="\n"),
    Fmt("markdown_v2", "github_markdown_v2.GithubMarkdownHandlerV2", [
        "# Head %n\n", "Text %n\nand more\n", "* item %n\n* item b%n\n",
        "| a%n | b%n |\n| --- | --- |\n| c%n | d%n |\n",
        "```\ncode %n\n```\n", "> [!NOTE]\n> note %n\n",
        "<p>html %n</p>\n",
    ], head="---\ntitle: a title\nx:\n  - \"quoted\"\n---\n\n", sep="\n"),
    Fmt("jsx", "markdown_jsx.MarkdownJsxHandler", [
        "# Head %n\n", "Text %n\nand more\n", "* item %n\n* item b%n\n",
        "<Comp a=\"b\">\n  html %n\n</Comp>\n",
    ], sep="\n"),
]
BY_NAME = {f.name: f for f in FORMATS}
