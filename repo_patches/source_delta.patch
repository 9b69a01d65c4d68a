From 9bfec83c43511dcdd6c778aa8df8d124279a6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 01/89] fix: read every JSON number in exponent notation

Numbers such as 1E5, 1e+5 and 1.5e3 are valid JSON but were not recognised
by the position-preserving reader, which made parsing fail with an untyped
ValueError.
---
 openformats/utils/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index f8b8a50..de76f47 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -242,7 +242,7 @@ class DumbJson(object):
             r'{_float}|{integer}'.format(
                 dict_list_string=r'[{\["]',
                 true_false_null=r'true|false|null',
-                e_notation=r'-?\d+e-?\d+',
+                e_notation=r'-?\d+(?:\.\d+)?[eE][+-]?\d+',
                 _float=r'-?\d+\.\d+',
                 integer=r'-?\d+',
             )
-- 
2.43.0


From f52d6409e8bdf67f7aee54f3eaa5b49dcda67c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 02/89] fix: unescape lone surrogates in JSON strings

An escaped lone surrogate followed by text whose 12-character slice cut another
escape sequence (or contained a raw control character) raised ValueError.
---
 openformats/utils/json.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index de76f47..be8933f 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -398,7 +398,12 @@ def _unescape_generator(string):
             # Surrogates: https://unicode.org/faq/utf_bom.html#utf16-2
             if 0xd800 <= ord(unescaped) <= 0xdfff:
                 unicode_escaped = string[ptr:ptr+12]
-                escaped = json.loads('"' + unicode_escaped + '"')
+                try:
+                    escaped = json.loads('"' + unicode_escaped + '"')
+                except ValueError:
+                    # The slice ends in the middle of another escape sequence,
+                    # so this is not a surrogate pair
+                    escaped = u''
                 if len(escaped) == 1:
                     yield escaped
                     ptr += 12
-- 
2.43.0


From dfd0b0b0777a1276b592985dc21fb01be75510f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 03/89] fix: escape all control characters in JSON strings

JSON does not allow raw control characters in strings, so escaping text that
had any other than \b, \f, \n, \r and \t made the compiled file invalid.
---
 openformats/utils/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index be8933f..9cfd7f5 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -329,6 +329,9 @@ def _escape_generator(string):
         elif symbol == DumbJson.TAB:
             yield DumbJson.BACKSLASH
             yield u't'
+        elif symbol < u' ':
+            # The rest of the control characters have no short form
+            yield u'\\u{:04x}'.format(ord(symbol))
         else:
             yield symbol
 
-- 
2.43.0


From 9f16503389af592cee43ddaa4ca7760535451494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 04/89] fix: keep JSON keys and values intact when removing
 strings from a template

Cleaning up the commas that removed entries leave behind also rewrote the
contents of the remaining keys and values, eg a "a, }" key became "a}".
---
 openformats/formats/json.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index abf7321..8c74935 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -543,6 +543,12 @@ class JsonHandler(Handler):
             '{, "a": "b", "c": "d"}' -> '{"a": "b", "c": "d"}'
             '["a", , "b"]' -> '["a", "b"]'
         """
+        # The contents of strings must not be mistaken for leftovers, put them
+        # aside
+        string_pattern = r'"(?:[^"\\]|\\.)*"'
+        strings = iter(re.findall(string_pattern, compiled, re.DOTALL))
+        compiled = re.sub(string_pattern, '""', compiled, flags=re.DOTALL)
+
         while True:
             # First key-value of a dict was removed
             match = re.search(r"{\s*,", compiled)
@@ -587,7 +593,7 @@ class JsonHandler(Handler):
             # No substitutions happened, break
             break
 
-        return compiled
+        return re.sub('""', lambda _: next(strings), compiled)
 
     def _get_next_string(self):
         try:
-- 
2.43.0


From e05d107d3d70fbdee2145141aa827f8794cb3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 05/89] fix: keep the enclosing bracket when removing an
 embedded structure from a JSON list

With no whitespace before it, the character preceding the removed dictionary or
list (its parent's opening bracket) was removed as well, eg [["hash"]] became ].
---
 openformats/formats/json.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 8c74935..102ab44 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -478,7 +478,12 @@ class JsonHandler(Handler):
         at_least_one = not bool(list(parsed))
 
         for value, value_position in parsed:
-            self.transcriber.copy_until(value_position - 1)
+            # Strings start at their opening quote, embedded structures at their
+            # opening bracket
+            if isinstance(value, DumbJson):
+                self.transcriber.copy_until(value_position)
+            else:
+                self.transcriber.copy_until(value_position - 1)
             self.transcriber.mark_section_start()
 
             tmp_at_least_one = self._insert_item(
-- 
2.43.0


From 007e4fcb2f94170c11d72ce56260ec2ac685ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 06/89] fix: write structured JSON metadata next to values that
 are not strings

When a context, comment or character limit had to be added to an entry whose
last value was a number, a literal or an embedded structure, or when a null
character limit got a value, the compiled file was invalid or had the wrong
type.
---
 openformats/formats/json.py | 40 ++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 102ab44..d6e0707 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -833,15 +833,32 @@ class StructuredJsonHandler(JsonHandler):
             if value == "" and template_value is None:
                 self.transcriber.add("null")
             else:
-                if template_value is None:
+                if template_value is None and isinstance(value, six.text_type):
                     self.transcriber.add(f'"{value}"')
                 else:
                     self.transcriber.add(f"{value}")
         else:
             self.transcriber.add("null")
 
-        self.transcriber.skip(len(f"{template_value}"))
-        self.transcriber.copy_until(value_position + len(f"{template_value}") + 1)
+        value_end = self._get_value_end(template_value, value_position)
+        if isinstance(template_value, six.text_type):
+            # Keep the closing quote
+            self.transcriber.skip_until(value_end - 1)
+            self.transcriber.copy_until(value_end)
+        else:
+            self.transcriber.skip_until(value_end)
+
+    def _get_value_end(self, value, value_position):
+        """Find the position right after a value of the template, including the
+        closing quote of strings or the closing bracket of embedded structures.
+        """
+        if isinstance(value, DumbJson):
+            return value.end + 1
+        if isinstance(value, six.text_type):
+            return value_position + len(value) + 1
+        # Number, boolean or null
+        pattern = re.compile(r"[-+.\w]*")
+        return pattern.match(self.transcriber.source, value_position).end()
 
     def _compile_recursively(self, current_part):
         if isinstance(current_part, DumbJson):
@@ -872,12 +889,17 @@ class StructuredJsonHandler(JsonHandler):
                     key_value_separator = None
                     for key, key_position, value, value_position in current_part:
                         prev_position_end = self.transcriber.ptr
-                        line_separator = current_part.source[
-                            prev_position_end + 1 : key_position - 1
-                        ]
+                        line_separator = re.sub(
+                            r"^\s*[{,]",
+                            "",
+                            current_part.source[prev_position_end : key_position - 1],
+                        )
                         key_value_separator = current_part.source[
-                            key_position + len(key) : value_position - 1
+                            key_position + len(key) : value_position
                         ]
+                        if isinstance(value, six.text_type):
+                            # Leave the opening quote out
+                            key_value_separator = key_value_separator[:-1]
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
                         if key == self.CONTEXT_KEY and translation:
@@ -915,9 +937,9 @@ class StructuredJsonHandler(JsonHandler):
                             self._compile_value(
                                 string_replacement, value, value_position
                             )
-                        elif not isinstance(value, DumbJson):
+                        else:
                             self.transcriber.copy_until(
-                                value_position + len(f"{value}") + 1
+                                self._get_value_end(value, value_position)
                             )
 
                     extra_elements = []
-- 
2.43.0


From 98ddd7277604caf9249a1c10cce048539a86af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 07/89] fix: compile structured JSON entries exactly where they
 were parsed

Lists inside objects are not parsed and neither is the root object itself, but
when compiling an object with a "string" key in there consumed a translation
that belonged to another string, or crashed.
---
 openformats/formats/json.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index d6e0707..ca03835 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -860,18 +860,22 @@ class StructuredJsonHandler(JsonHandler):
         pattern = re.compile(r"[-+.\w]*")
         return pattern.match(self.transcriber.source, value_position).end()
 
-    def _compile_recursively(self, current_part):
+    def _compile_recursively(self, current_part, is_root=True):
         if isinstance(current_part, DumbJson):
-            if current_part.type == list:
+            # Same as when parsing, lists are only taken into account at the root
+            # and the root itself is not an entry
+            if current_part.type == list and is_root:
                 for value, value_position in current_part:
                     self._compile_recursively(value)
             if current_part.type == dict:
-                (value, _) = current_part.find_children(self.STRING_KEY)[0]
+                value = None
+                if not is_root:
+                    (value, _) = current_part.find_children(self.STRING_KEY)[0]
                 if not value:
                     for key, key_position, value, value_position in current_part:
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
-                        self._compile_recursively(value)
+                        self._compile_recursively(value, is_root=False)
                 else:
                     (value, _) = current_part.find_children(self.STRING_KEY)[0]
                     if not value.strip():
-- 
2.43.0


From 24873bb9e1bfed5ace448a25fa5595f897866265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 08/89] fix: ignore plain strings in structured JSON lists

They are documented as not being parsed, but made parsing fail with a
TypeError.
---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index ca03835..2878ab1 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -138,7 +138,7 @@ class JsonHandler(Handler):
                 else:
                     key = f"{nest}..{index}.."
                 if isinstance(item, (six.binary_type, six.text_type)):
-                    if not item.strip():
+                    if not item.strip() or self.name == "STRUCTURED_JSON":
                         continue
 
                     openstring = self._create_openstring(key, item, item_position)
-- 
2.43.0


From 642a46d6b3b618dc6b62866cc6fefd99e0cbbbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 09/89] fix: parse Chrome messages that are not inside an
 object

Looking for the description of such a message raised a TypeError.
---
 openformats/formats/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 2878ab1..5d39708 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1450,7 +1450,9 @@ class ChromeI18nHandler(JsonHandler):
         key_split = key.split(".")
         try:
             return self.json_dict[key_split[0]]["description"]
-        except KeyError:
+        except (KeyError, TypeError):
+            # Either there is no description or the root of the key is not a
+            # dictionary
             return ""
 
     def _copy_until_and_remove_section(self, pos):
-- 
2.43.0


From 5354f42a431b2c4e736a6f6b1825c0279a2e596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 10/89] fix: extract the description of pluralized Chrome
 messages

---
 openformats/formats/json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 5d39708..22e8805 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1440,6 +1440,14 @@ class ChromeI18nHandler(JsonHandler):
 
         return openstring
 
+    def _create_pluralized_string(self, icu_string, value_position):
+        """Same as the parent's, but include the description."""
+        return super(ChromeI18nHandler, self)._create_pluralized_string(
+            icu_string,
+            value_position,
+            description_value=self._get_description(icu_string.key),
+        )
+
     def _get_description(self, key):
         """Return the 'description' child for a given key
 
-- 
2.43.0


From d433a668621fc3cf2fa7fe6f1e8759f51736fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 11/89] fix: parse ARB files that have lists

Lists (eg of placeholders in the metadata of a resource) made parsing fail with
a ValueError.
---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 22e8805..978eea8 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -672,7 +672,7 @@ class ArbHandler(JsonHandler):
                 elif key.endswith(".description"):
                     self.metadata[key] = value
 
-            if isinstance(value, DumbJson):
+            if isinstance(value, DumbJson) and value.type == dict:
                 self._find_keys(value, key)
             else:
                 pass
-- 
2.43.0


From 56dfaea9c513580a5d9fc22a5701e22a5c922ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 12/89] fix: accept ICU forms whose text repeats another form

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index fe089cc..7f58979 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -347,7 +347,7 @@ class ICUParser(object):
         # Replace all matches with spaces in the given string.
         remaining_str = serialized_strings
         for match in all_matches:
-            remaining_str = remaining_str.replace(match[0], '')
+            remaining_str = remaining_str.replace(match[0], '', 1)
 
         # Then make sure all whitespace is removed as well
         # Special characters may be present with double backslashes,
-- 
2.43.0


From b89102ab3eba709f1b16b8d16cec7ff08a813862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 13/89] fix: read XML attributes with spaces before the equals
 sign

---
 openformats/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 9f1ca87..cc3dcc0 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -462,7 +462,8 @@ class NewDumbXml(object):
                     # <a b="c" ... >
                     #        ^
                     status = None
-                    self._attributes.append((key_position, u''.join(key),
+                    self._attributes.append((key_position,
+                                             u''.join(key).rstrip(),
                                              value_position, u''.join(value)))
                 else:
                     # <a b="cde" ... >
-- 
2.43.0


From 7c802da89e97dfb059677a59d4689bc2b93b06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 14/89] fix: report unclosed XML tags that have children as
 syntax errors

---
 openformats/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index cc3dcc0..3d677b2 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -558,6 +558,11 @@ class NewDumbXml(object):
 
         start = self.text_position + len(self.text)
         while True:
+            if start + 1 >= len(self.source):
+                raise DumbXmlSyntaxError(
+                    u"Tag '{}' not closed on line {}".
+                    format(self.tag, self._find_line_number())
+                )
             if self.source[start + 1] == self.FORWARD_SLASH:
                 # We found the closing tag
                 self._content_end = start
-- 
2.43.0


From 15bf57878e4757284220ae494080a37f5a2d05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 15/89] fix: keep Android resources that are empty in the
 source

---
 openformats/formats/android.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 1b45dd2..fefc3ab 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -436,10 +436,12 @@ class AndroidHandler(Handler):
             self.transcriber.copy_until(child.end)
             self.transcriber.mark_section_end()
             self.next_string = self._get_next_string()
-        elif not child.text:
-            # In the case of a string-array we don't want to skip an
-            # empty array element that was initially empty.
-            pass
+        elif not (child.content or u'').strip():
+            # We don't want to skip an element that was initially empty.
+            self.transcriber.copy_until(child.tail_position)
+            self.transcriber.mark_section_start()
+            self.transcriber.copy_until(child.end)
+            self.transcriber.mark_section_end()
         else:
             self._skip_tag(child)
 
@@ -456,8 +458,9 @@ class AndroidHandler(Handler):
         """
         item_iterator = list(child.find_children(self.STRING_ITEM))
 
-        # If placeholder (has no children) skip
-        if len(item_iterator) == 0:
+        # If placeholder (has no children or only empty children) skip
+        if all(not (item_tag.content or u'').strip()
+               for item_tag in item_iterator):
             self.transcriber.copy_until(child.end)
             return
 
@@ -492,6 +495,7 @@ class AndroidHandler(Handler):
         """
         # If placeholder (has empty children) skip
         if len(list(child.find_children(self.STRING_ITEM))):
+            self.transcriber.copy_until(child.end)
             return
 
         if self._should_compile(child):
-- 
2.43.0


From f8aa4a4d7112c8351dc795c10ee013f7078a2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 16/89] fix: keep other Android resources next to removed
 strings

---
 openformats/formats/android.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index fefc3ab..bc759ad 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -385,11 +385,7 @@ class AndroidHandler(Handler):
         first_tag_position = parsed.text_position + len(parsed.text)
         self.transcriber.copy_until(first_tag_position)
 
-        children_iterator = parsed.find_children(
-            self.STRING,
-            self.STRING_ARRAY,
-            self.STRING_PLURAL
-        )
+        children_iterator = parsed.find_children()
 
         self.is_source = is_source
         self.stringset = iter(stringset)
@@ -408,7 +404,14 @@ class AndroidHandler(Handler):
             handle it based on the child's tag.
         """
 
-        if not self._should_ignore(child):
+        if child.tag == DumbXml.COMMENT:
+            # Comments are removed along with the resource they precede
+            return
+        if child.tag not in (self.STRING, self.STRING_ARRAY,
+                             self.STRING_PLURAL):
+            # Other resources are not translated, keep them
+            self.transcriber.copy_until(child.end)
+        elif not self._should_ignore(child):
             if child.tag == self.STRING:
                 self._compile_string(child)
             elif child.tag == self.STRING_ARRAY:
-- 
2.43.0


From 24b2c4a3b78f5264ee056594dedeeee2d7b9fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 17/89] fix: parse single tags with the unescaped Android
 handler

---
 openformats/formats/android_unescaped.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 76c77ce..3074e8d 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -41,6 +41,9 @@ class AndroidUnescapedHandler(AndroidHandler):
 
     @staticmethod
     def _check_unescaped_characters_in_simple_string(text):
+        if text is None:
+            # Single tag, eg `<string name="a" />`
+            return
         try:
             protected_string, _ = AndroidUnescapedHandler._protect_inline_tags(text)
         except Exception as e:
-- 
2.43.0


From 7dbab9f6d180f92c0b5a193952c9584538770c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 18/89] fix: compile Android files with a single resources tag

---
 openformats/formats/android.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index bc759ad..7442dfe 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -382,8 +382,9 @@ class AndroidHandler(Handler):
 
         # This is needed in case the first tag is skipped to retain
         # the file's formating
-        first_tag_position = parsed.text_position + len(parsed.text)
-        self.transcriber.copy_until(first_tag_position)
+        if parsed.text_position is not None:
+            first_tag_position = parsed.text_position + len(parsed.text)
+            self.transcriber.copy_until(first_tag_position)
 
         children_iterator = parsed.find_children()
 
-- 
2.43.0


From 23121e234310aeaa6045ca2b89b9dcfa4914a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 19/89] fix: protect repeated inline tags of unescaped Android
 strings

---
 openformats/formats/android_unescaped.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 3074e8d..0c3271e 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -76,14 +76,18 @@ class AndroidUnescapedHandler(AndroidHandler):
         parsed = DumbXml(wrapped_text)
         children_iterator = parsed.find_children()
 
+        pieces = []
+        last_end = len("<x>")
         for child in children_iterator:
             if child.tag in AndroidHandler.INLINE_TAGS:
                 child_content = child.source[child.position : child.tail_position]
                 string_hash = md5(child_content.encode("utf-8")).hexdigest()
-                text = text.replace(child_content, string_hash)
+                pieces.extend([wrapped_text[last_end : child.position], string_hash])
+                last_end = child.tail_position
                 protected_tags[string_hash] = child_content
+        pieces.append(wrapped_text[last_end : -len("</x>")])
 
-        return text, protected_tags
+        return "".join(pieces), protected_tags
 
     @staticmethod
     def _unprotect_inline_tags(text, protected_tags):
-- 
2.43.0


From 62f1d792526d98fbfde824e4dcac9a13b1641dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 20/89] fix: escape other tags and leading at-signs of
 unescaped Android strings

---
 openformats/formats/android_unescaped.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 0c3271e..19322e8 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -174,13 +174,12 @@ class AndroidUnescapedHandler(AndroidHandler):
                 # escape all special characters. One case of these errors is the
                 # presence of '<' symbols without corresponding closing tags, causing
                 # parsing errors.
-                string = AndroidHandler.escape(string)
-                string = AndroidUnescapedHandler.escape_special_characters(string)
-                string = string.replace("<", "&lt;")
-                return string
+                protected_tags = {}
 
-            string = AndroidHandler.escape(string)
+            # Whatever is not a protected inline tag is text
             string = AndroidUnescapedHandler.escape_special_characters(string)
+            string = string.replace("<", "&lt;")
+            string = AndroidHandler.escape(string)
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
             )
-- 
2.43.0


From 9f93953ae1dc2581bd8eb8f7e81c011628872530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 21/89] fix: escape at-signs only at the start of Android
 strings

---
 openformats/formats/android.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 7442dfe..a1cfbae 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -598,18 +598,19 @@ class AndroidHandler(Handler):
         """
 
         def _escape_text(string):
-            # If the string starts with an at-sign that doesn't identify
-            # another string, then we need to escape it using a leading
-            # backslash
-            if string.startswith(u'@') and not string.startswith(u'@string/'):
-                string = string.replace(u'@', u'\\@', 1)
             return string.\
                 replace(DumbXml.DOUBLE_QUOTES,
                         u''.join([DumbXml.BACKSLASH, DumbXml.DOUBLE_QUOTES])).\
                 replace(DumbXml.SINGLE_QUOTE,
                         u''.join([DumbXml.BACKSLASH, DumbXml.SINGLE_QUOTE]))
 
-        return xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        escaped = xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+        # If the string starts with an at-sign that doesn't identify
+        # another string, then we need to escape it using a leading
+        # backslash
+        if escaped.startswith(u'@') and not escaped.startswith(u'@string/'):
+            escaped = u'\\' + escaped
+        return escaped
 
     @staticmethod
     def unescape(string):
-- 
2.43.0


From f0017aa6e46805d9c0dd23c779afd5fd74676515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 22/89] fix: escape Android strings that hold a closing x tag

---
 openformats/utils/xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 3d677b2..89f0f3c 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -29,6 +29,8 @@ def escape(string, inline_tags, escape_text):
     wrapped_text = transcriber.source
     try:
         root = NewDumbXml(wrapped_text)
+        if root.tail_position != len(wrapped_text):
+            raise DumbXmlSyntaxError(u"Text closes the temporary outer tag")
         _escape_tag(root, transcriber, inline_tags, escape_text)
     except DumbXmlSyntaxError:
         # If opening-closing tags do not match within text, revert to the
-- 
2.43.0


From fead4852d9359e7094fbee32b743dc56dff94c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 23/89] fix: keep what follows one-line plurals in legacy
 Android files

---
 openformats/formats/beta_android.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 1a32fac..e7df3a8 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -358,9 +358,7 @@ class BetaAndroidHandler(Handler):
                             rule=self.get_rule_string(rule), string=value
                         )
                     )
-                self.transcriber.skip(indent_length +
-                                      len(next_string.template_replacement) +
-                                      tail_length)
+                self.transcriber.skip(len(next_string.template_replacement))
 
             # finish up by copying until the end of </plurals>
             self.transcriber.copy_until(plurals_offset +
-- 
2.43.0


From 14bc99c6dcb9ef3faca7d7f69bf96cb311feb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 24/89] fix: do not copy past array items in legacy Android
 files

---
 openformats/formats/beta_android.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index e7df3a8..ae6d243 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -144,8 +144,7 @@ class BetaAndroidHandler(Handler):
             # orld</item>   <it...
             #            ^
             self.transcriber.copy_until(
-                string_array_offset + item_offset + item_tag.inner_offset +
-                len(item_tag.content)
+                string_array_offset + item_offset + len(item_tag.content)
             )
 
         # </item>  </string-array>
-- 
2.43.0


From 374ddbd1a483f9ddea69ecc181ce8318b28128ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 25/89] fix: take in stringsdict format texts exactly where
 they stand

---
 openformats/formats/stringsdict.py | 57 +++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 26f6565..be75b45 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -146,14 +146,18 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content)
-                if matches is not None:
+                                   value_tag.content, re.DOTALL)
+                if matches is not None and self._has_strings(
+                    dict_tag, value_tag, matches.group("variable")
+                ):
                     # The prefix and the suffix are relative to the FIRST
                     # variable
                     text_extras = {
                         "variable": matches.group("variable"),
                         "prefix": matches.group("prefix"),
                         "suffix": matches.group("suffix"),
+                        "start": value_tag.text_position,
+                        "end": value_tag.content_end,
                     }
                 # If the key is the one of the stringsdict defaults skip it
                 continue
@@ -169,6 +173,32 @@ class StringsDictHandler(Handler):
                 string_list.append(openstring)
         return string_list
 
+    def _has_strings(self, dict_tag, format_tag, variable):
+        """Checks whether the inline-replacement [1] can be applied to a
+        variable, ie if it comes after the format and has any plural that is
+        not empty.
+
+        :param dict_tag: The <dict> tag of the main key.
+        :param format_tag: The value tag of the NSStringLocalizedFormatKey.
+        :param variable: The name of the variable.
+        """
+        children = list(dict_tag.find_children())
+        for key_tag, value_tag in zip(children[::2], children[1::2]):
+            if (
+                key_tag.position < format_tag.position
+                or key_tag.content != variable
+                or value_tag.tag != self.DICT
+            ):
+                continue
+            plurals = list(value_tag.find_children())
+            for plural_key, plural in zip(plurals[::2], plurals[1::2]):
+                if (
+                    plural_key.content not in [self.KEY_SPEC, self.KEY_VALUE]
+                    and plural.content and plural.content.strip()
+                ):
+                    return True
+        return False
+
     def _handle_strings(self, dict_tag, main_key, secondary_key, extras):
         """Handles the <dict> tag that contains the strings.
 
@@ -186,20 +216,15 @@ class StringsDictHandler(Handler):
         # If inline-replacement [1] is required, the first step is to remove
         # the prefix and the suffix from the original string.
         if extras is not None:
-            # This isolates the part of the source file between the main key
-            # and the plural rules, so we only replace the value of the
-            # NSStringLocalizedFormatKey value
-            text = self.transcriber.source[
-                self.transcriber.ptr:dict_tag.position
-            ]
-            text = text.replace(u'<string>{}'.format(extras['prefix']),
-                                u'<string>', 1)
-            text = text.replace(u'{}</string>'.format(extras['suffix']),
-                                u'</string>', 1)
-            self.transcriber.add(text)
-            self.transcriber.skip_until(dict_tag.position)
-        else:
-            self.transcriber.copy_until(dict_tag.position)
+            # This only has to be done once for each main key.
+            if self.transcriber.ptr <= extras["start"]:
+                prefix_end = extras["start"] + len(extras["prefix"])
+                suffix_start = extras["end"] - len(extras["suffix"])
+                self.transcriber.copy_until(extras["start"])
+                self.transcriber.skip_until(prefix_end)
+                self.transcriber.copy_until(suffix_start)
+                self.transcriber.skip_until(extras["end"])
+        self.transcriber.copy_until(dict_tag.position)
 
         # Save the line in which the plural rule starts to associate it with
         # the openstring object. This is used later for generating helpful
-- 
2.43.0


From 094acc43843b698bc35e9667b192b09d8f35898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 26/89] fix: compile customizable XML files with other, single
 or untranslated tags

---
 openformats/formats/customizable_xml.py | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index a00cb77..b58312a 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import
 
 import itertools
+import re
 
 from openformats.exceptions import ParseError
 from ..handlers import Handler
@@ -37,6 +38,9 @@ DEFAULT_VARIANT_STRING_CONTEXT_NAME = 'context'
 # -> the string key of the variant string will be: "some_key::some_context"
 COMPOSITE_KEY_SEPARATOR = '::'
 
+# The hash placeholders of the translatable strings in the template
+PLACEHOLDER_RE = re.compile(r'^[0-9a-f]{32}_tr$')
+
 
 class CustomizableXMLHandler(Handler):
     """A file format that supports XML files whose structure
@@ -226,6 +230,10 @@ class CustomizableXMLHandler(Handler):
               <variant context="b">Yet another string</variant>
             </string>
         """
+        if string_tag.text_position is None:
+            # Single tag, there is nothing to compile
+            return
+
         # Copy until "<string key="..." ...>"
         self.transcriber.copy_until(string_tag.text_position)
 
@@ -233,11 +241,25 @@ class CustomizableXMLHandler(Handler):
             self.base_string_name, self.variant_string_name,
         )
         for translatable_str_node in base_and_variants:
+            if translatable_str_node.text_position is None:
+                # Single tag, there is nothing to compile
+                continue
+
             # Copy until "<base>" or "<variant>"
             self.transcriber.copy_until(translatable_str_node.text_position)
 
-            # Only consume the current translation if the XML node has text
-            if translatable_str_node.text:
+            content = translatable_str_node.content
+            if not PLACEHOLDER_RE.match(content):
+                # This is not translatable, leave it as it is
+                self.transcriber.copy_until(translatable_str_node.content_end)
+
+            # Only consume the current translation if it doesn't belong to a
+            # following XML node
+            elif self.next_string is not None and (
+                self.next_string.template_replacement == content or
+                self.next_string.template_replacement
+                not in self.transcriber.source
+            ):
                 # Add the translation
                 self.transcriber.add(self.next_string.string)
                 self.next_string = self._get_next_string()
-- 
2.43.0


From 951a42b3470dc68c371169204254a512c521a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 27/89] fix: find the root of customizable XML files with
 Windows newlines

---
 openformats/formats/customizable_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index b58312a..aad569b 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -134,7 +134,7 @@ class CustomizableXMLHandler(Handler):
         source = transcriber.source
 
         # Everything starts at the root tag
-        root_tag_pos = self._get_root_node_pos(content)
+        root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
         stringset = []
 
-- 
2.43.0


From cb1ca96d4bc0717aa331d404f43da2ca8aae7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 28/89] fix: report customizable XML sections without a name as
 parse errors

---
 openformats/formats/customizable_xml.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index aad569b..fe641b0 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -159,7 +159,7 @@ class CustomizableXMLHandler(Handler):
                     string = OpenString(
                         key,
                         tag.content,
-                        context=section_tag.attrib[self.section_id_name],
+                        context=self._get_section_id(section_tag),
                         order=next(order_counter),
                     )
                     stringset.append(string)
@@ -286,6 +286,24 @@ class CustomizableXMLHandler(Handler):
                 )
             )
 
+    def _get_section_id(self, section_tag):
+        """Return the identifier of the given section.
+
+        :param NewDumbXml section_tag: the XML tag of the section
+        :return: the identifier of the section
+        :rtype: str
+        :raise ParseError: if the section has no identifier
+        """
+        try:
+            return section_tag.attrib[self.section_id_name]
+        except KeyError:
+            raise ParseError(
+                'Missing "{key}" attribute in <{section}> node'.format(
+                    key=self.section_id_name,
+                    section=self.section_name,
+                )
+            )
+
     def _get_key(self, string_tag, tag):
         """Return the key that corresponds to a given translatable string.
 
-- 
2.43.0


From 07f614be1aa89a802de6ff83fbf5f9d9a22d44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 29/89] fix: keep the custom tags of YAML list items

---
 openformats/formats/yaml/utils.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 22826dc..9527d29 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -158,6 +158,20 @@ class TxYamlLoader(yaml.SafeLoader):
                         tag,
                         re.IGNORECASE)
 
+    def _get_custom_tag(self, node):
+        """
+        Get the custom tag of a node without its exclamation mark.
+
+        Returns:
+            The tag or None if the node doesn't have a custom tag.
+        """
+        tag = None
+        if hasattr(node, 'tag') and self._is_custom_tag(node.tag):
+            tag = six.text_type(node.tag)
+            # remove the exclamation mark from the tag
+            tag = tag[1:] if tag.startswith('!') else tag
+        return tag
+
     def construct_mapping(self, node, deep=True):
         """
         Override `yaml.SafeLoader.construct_mapping` to return for each item
@@ -221,16 +235,7 @@ class TxYamlLoader(yaml.SafeLoader):
                   isinstance(value, six.text_type)):
                 style = value_node.style
 
-            # Setup the node's tag
-            tag = None
-            if (
-                hasattr(value_node, 'tag')
-                and self._is_custom_tag(value_node.tag)
-            ):
-                tag = six.text_type(value_node.tag)
-                # remove the exclamation mark from the tag
-                tag = tag[1:] if tag.startswith('!') else tag
-
+            tag = self._get_custom_tag(value_node)
             value = Node(value, start, end, style, tag)
             pairs.append((key, value))
 
@@ -290,7 +295,8 @@ class TxYamlLoader(yaml.SafeLoader):
                 values.append(Node(value, start, end, style, None))
             else:
                 style = value_node.style
-                values.append(Node(value, start, end, style, None))
+                tag = self._get_custom_tag(value_node)
+                values.append(Node(value, start, end, style, tag))
         return values
 
     def _calculate_block_end_pos(self, start, end):
-- 
2.43.0


From 71b4fbfe490c19629f554586835c278945d5c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 30/89] fix: quote YAML translations that would be read as
 numbers, booleans etc

---
 openformats/formats/yaml/yaml.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 0e4c729..93a476b 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -6,8 +6,11 @@ import re
 import six
 from yaml.constructor import SafeConstructor
 from yaml.emitter import Emitter
+from yaml.nodes import ScalarNode
+from yaml.resolver import Resolver
 
 from openformats.exceptions import ParseError
+from openformats.formats.yaml.constants import YAML_STRING_ID
 from openformats.formats.yaml.utils import (TxYamlDumper, TxYamlLoader,
                                             YamlGenerator, yaml)
 from openformats.handlers import Handler
@@ -366,7 +369,10 @@ class YamlHandler(Handler):
             else:
                 emitter.write_double_quoted(string.string)
         elif style == '':
-            if analysis.allow_block_plain and analysis.allow_flow_plain:
+            if (
+                analysis.allow_block_plain and analysis.allow_flow_plain and
+                (string.context or self._is_plain_string(string.string))
+            ):
                 emitter.write_plain(string.string)
             else:
                 emitter.write_double_quoted(string.string)
@@ -381,6 +387,14 @@ class YamlHandler(Handler):
         emitter.stream.close()
         return translation
 
+    @staticmethod
+    def _is_plain_string(text):
+        """ Check whether a text will be read as a string if it is written
+        without any quotes, and not as a number, a boolean etc.
+        """
+        tag = Resolver().resolve(ScalarNode, text, (True, False))
+        return tag == YAML_STRING_ID
+
     def _compile_from_template(self, template, stringset, **kwargs):
         """ Compiles translation file from template
 
-- 
2.43.0


From 10ba8e2f79493fe37bce817cc2322eef36862957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 31/89] fix: write YAML block scalars so that any translation
 is read back

Indent them more than the node that holds them, end them with a newline
and fall back to double quotes for texts that they can't hold.
---
 openformats/formats/yaml/yaml.py | 74 ++++++++++++++++++++++++++++++--
 1 file changed, 71 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 93a476b..eca13bc 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -334,7 +334,7 @@ class YamlHandler(Handler):
         """
         return yaml_data
 
-    def _write_styled_literal(self, string):
+    def _write_styled_literal(self, string, parent_indent=None):
         """ Produce a properly formatted YAML string
 
         Properly format translation string based on string's style
@@ -342,6 +342,9 @@ class YamlHandler(Handler):
 
         Args:
             string: An OpenString instance
+            parent_indent: The indentation of the YAML node that holds the
+                string, if it is known. Block scalars need to be indented more
+                than that.
 
         Returns:
             The formatted string.
@@ -352,7 +355,14 @@ class YamlHandler(Handler):
         stream = StringIO()
         emitter = Emitter(stream, allow_unicode=True)
         indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
+        if parent_indent is not None and indent <= parent_indent:
+            indent = parent_indent + (self.indent or 2)
         emitter.indent = indent
+        # Indentation hints of block scalars are relative to the parent node
+        block_hint = self.indent
+        if parent_indent is not None:
+            block_hint = indent - parent_indent
+        emitter.best_indent = block_hint
         # set best_width to `float(inf)` so that long strings are not broken
         # into multiple lines
         emitter.best_width = float('inf')
@@ -360,6 +370,10 @@ class YamlHandler(Handler):
         analysis = emitter.analyze_scalar(string.string)
 
         style = string.flags.split(':')[-1]
+        if style in ('|', '>') and not (
+            self._allow_block(string.string, style, emitter, block_hint)
+        ):
+            style = '"'
 
         if style == '"':
             emitter.write_double_quoted(string.string)
@@ -387,6 +401,24 @@ class YamlHandler(Handler):
         emitter.stream.close()
         return translation
 
+    @staticmethod
+    def _allow_block(text, style, emitter, block_hint):
+        """ Check whether a text can be written as a literal or a folded block
+        scalar without being altered.
+        """
+        if text[:1] in (' ', '\n') and not 0 < block_hint < 10:
+            # It needs an indentation hint, which can only be a single digit
+            return False
+        if re.search(u'[\x85\u2028\u2029]', text):
+            # Unusual line breaks
+            return False
+        if style == '>' and (text[:1] == '\t' or '\n\t' in text):
+            # Lines that start with tabs can't be folded
+            return False
+        # Tabs and spaces at the end of the text are fine
+        analysis = emitter.analyze_scalar(text.replace('\t', '_'))
+        return analysis.allow_block or analysis.allow_single_quoted
+
     @staticmethod
     def _is_plain_string(text):
         """ Check whether a text will be read as a string if it is written
@@ -395,6 +427,24 @@ class YamlHandler(Handler):
         tag = Resolver().resolve(ScalarNode, text, (True, False))
         return tag == YAML_STRING_ID
 
+    @staticmethod
+    def _get_parent_indent(line):
+        """ Find the indentation of the node that holds a value.
+
+        Args:
+            line: A string, the part of the line that precedes the value
+
+        Returns:
+            The number of spaces.
+        """
+        dashes = re.match(ensure_unicode(r'^ *(?:- +)*'), line).group()
+        if dashes.rstrip(' ').endswith('-') and re.match(
+            ensure_unicode(r'^(?:[&!][^ ]* +)*$'), line[len(dashes):]
+        ):
+            # The value is an item of a list
+            return len(dashes.rstrip(' ')) - 1
+        return len(dashes)
+
     def _compile_from_template(self, template, stringset, **kwargs):
         """ Compiles translation file from template
 
@@ -407,13 +457,30 @@ class YamlHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
 
+        # The part of the current line of the compiled file that has already
+        # been written
+        line = u''
+
         for string in stringset:
+            hash_position = template.index(string.template_replacement)
+            line += template[transcriber.ptr:hash_position]
+            line = line[line.rfind('\n') + 1:]
             if string.pluralized:
                 translation = self._compile_pluralized(string)
             else:
-                translation = self._write_styled_literal(string)
-            hash_position = template.index(string.template_replacement)
+                translation = self._write_styled_literal(
+                    string, self._get_parent_indent(line)
+                )
             transcriber.copy_until(hash_position)
+            rest = hash_position + len(string.template_replacement)
+            if (
+                not string.pluralized and
+                string.flags and string.flags.split(':')[-1] in ('|', '>') and
+                not translation.endswith('\n') and
+                template[rest:rest + 1] not in ('', '\n', '\r')
+            ):
+                # Block scalars include the end of their last line
+                translation += '\n'
             # The context contains custom tags. If it exists, we must prepend
             # it and apply a space afterwards so it doesn't get merged with the
             # string
@@ -422,6 +489,7 @@ class YamlHandler(Handler):
                 transcriber.add('!' + string.context)
                 transcriber.add(' ')
             transcriber.add(translation)
+            line += translation
             transcriber.skip(len(string.template_replacement))
 
         transcriber.copy_until(len(template))
-- 
2.43.0


From 401f0f9d4b7d6fffa7e6b14608aee05bbe1d2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 32/89] fix: compile PO entries whose plural msgid is made of
 spaces

---
 openformats/formats/po.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 82f51c1..ff0087c 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -274,7 +274,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if is_plural:
                     compiled = self._compile_plural_entry(entry, next_string)
                 else:
@@ -308,7 +308,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if (
                     (is_plural and entry.msgstr_plural.get("0") == next_string.template_replacement)
                     or entry.msgstr == next_string.template_replacement
-- 
2.43.0


From 1bcada2c2409b9fff493a041ebd4c1f82bad6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 33/89] fix: split PO keys whose msgid ends in a backslash

---
 openformats/formats/po.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index ff0087c..41fdeba 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -361,9 +361,13 @@ class PoHandler(Handler):
         # find first *unescaped* colon
         separation_index = None
         for i, ch in enumerate(key):
-            if ch == ":" and (i == 0 or key[i - 1] != "\\"):
-                separation_index = i
-                break
+            if ch == ":":
+                # The colon is escaped if an odd number of backslashes
+                # precedes it
+                head = key[:i]
+                if (len(head) - len(head.rstrip("\\"))) % 2 == 0:
+                    separation_index = i
+                    break
 
         if separation_index is None:
             msgid_escaped = key
-- 
2.43.0


From 50a75dacbe1f2641d7c8cc4ad0e8ee2c80a5a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 34/89] fix: leave PO templates as they were when compiling or
 syncing them

---
 openformats/formats/po.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 41fdeba..17a8d54 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -1,6 +1,6 @@
 import itertools
 import re
-from copy import copy
+from copy import deepcopy
 
 import polib
 import six
@@ -268,7 +268,7 @@ class PoHandler(Handler):
         next_string = next(stringset, None)
 
         if isinstance(template, polib.POFile):
-            po = template
+            po = deepcopy(template)
         else:
             po = polib.pofile(template)
 
@@ -299,7 +299,7 @@ class PoHandler(Handler):
         next_string = next(iterator, None)
 
         if isinstance(template, polib.POFile):
-            po = template
+            po = deepcopy(template)
         else:
             po = polib.pofile(template)
 
@@ -335,7 +335,7 @@ class PoHandler(Handler):
             return template
 
         if isinstance(template, polib.POFile):
-            po = template
+            po = deepcopy(template)
         else:
             po = polib.pofile(template)
 
-- 
2.43.0


From 9d35d0f99841eee8a6b8d4db57eb760e874ddaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 35/89] fix: accept the arguments of other handlers when
 parsing SRT files

---
 openformats/formats/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index bd1f371..371d425 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -22,7 +22,7 @@ class SrtHandler(Handler):
                 yield start + match.start(), section.strip()
             start += len(section) + 2
 
-    def parse(self, content):
+    def parse(self, content, **kwargs):
         self.transcriber = Transcriber(content)
         source = self.transcriber.source
         stringset = []
-- 
2.43.0


From b7f5c5ba826c7843c9a8e7d617ac75f394ce0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 36/89] fix: compile SRT files without any translation

---
 openformats/formats/srt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index 371d425..c5b2928 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -146,7 +146,7 @@ class SrtHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
         stringset = iter(stringset)
-        string = next(stringset)
+        string = next(stringset, None)
 
         for start, subtitle_section in self.\
                 _generate_split_subtitles(template):
@@ -158,7 +158,7 @@ class SrtHandler(Handler):
             second_newline = subtitle_section.index('\n', first_newline + 1)
             hash_position = second_newline + 1
 
-            if (subtitle_section[
+            if string is not None and (subtitle_section[
                     hash_position:
                     hash_position + len(string.template_replacement)
                     ] == string.template_replacement):
-- 
2.43.0


From 943c9b713e754b91dab500594aef0f629c31f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 37/89] fix: report the line of wrong VTT timings when there is
 no identifier

---
 openformats/formats/vtt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/vtt.py b/openformats/formats/vtt.py
index 05c2799..b5d0ddf 100644
--- a/openformats/formats/vtt.py
+++ b/openformats/formats/vtt.py
@@ -85,20 +85,20 @@ class VttHandler(Handler):
                 timings_parse_error = True
         if timings_parse_error:
             raise ParseError(
-                f"Timings on line {self.transcriber.line_number + 1} "
+                f"Timings on line {self.transcriber.line_number + timings_index} "
                 "don't follow '[start] --> [end] (position)' pattern"
             )
         try:
             start = self._format_timing(start)
         except ValueError:
             raise ParseError(
-                f"Problem with start of timing at line {self.transcriber.line_number + 1}: '{start}'"
+                f"Problem with start of timing at line {self.transcriber.line_number + timings_index}: '{start}'"
             )
         try:
             end = self._format_timing(end)
         except ValueError:
             raise ParseError(
-                f"Problem with end of timing at line {self.transcriber.line_number + 1}: '{end}'"
+                f"Problem with end of timing at line {self.transcriber.line_number + timings_index}: '{end}'"
             )
 
         # Content
-- 
2.43.0


From fe0fb6b1c3c188c7be8a516543fbb0dab06503f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 38/89] fix: parse Markdown files that start with indented code
 or hold nbsp in it

---
 openformats/formats/github_markdown.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 0e58bfe..4fe8e9b 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -35,10 +35,11 @@ def string_handler(token, template):
     if key == 'block_code':
         lines = string.split('\n')
         line = lines[0]
-        spaces = re.findall(
-            ensure_unicode(r'\n( *){}').format(re.escape(line)),
+        match = re.search(
+            ensure_unicode(r'(?:^|\n)( *){}').format(re.escape(line)),
             template
-        )[0]
+        )
+        spaces = match.group(1) if match else ''
         if spaces:
             string = ''
             for line in lines:
-- 
2.43.0


From b8995c9c791850d498b22977cc55d59ef01ae242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 39/89] fix: extract Markdown headers that hold a hash followed
 by a space

---
 openformats/formats/github_markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 4fe8e9b..5ac1bef 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -54,7 +54,7 @@ def string_handler(token, template):
     # Drop # chars from beginning of the string
     match_header_line = re.search(ensure_unicode(r'^#+\s'), string)
     if match_header_line:
-        return string.replace(match_header_line.group(), '')
+        return string[match_header_line.end():]
 
     # Extract Text from `[Text]: link` or `"[Text]: link"` lines
     match_reference = re.search(ensure_unicode(r'^"?\[([^\[^\]]+)\]:.+"?$'), string)
-- 
2.43.0


From 8a2d6a8ed34c797320113f41ec7693b1444661fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 40/89] fix: extract indented Markdown code with empty lines
 inside of lists

---
 openformats/formats/github_markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 5ac1bef..ad334d6 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -43,7 +43,8 @@ def string_handler(token, template):
         if spaces:
             string = ''
             for line in lines:
-                line = u'{}{}'.format(spaces, line)
+                if line:
+                    line = u'{}{}'.format(spaces, line)
                 string += '\n'
                 string += line
 
-- 
2.43.0


From 69ba50a803dae1458d63bdd5137de4be9acc6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 41/89] fix: read escaped characters of Markdown headers as
 hexadecimal

---
 openformats/formats/github_markdown_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index d0dc40f..f7650a7 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -236,8 +236,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             for match in reversed(all_matches):
                 escaped = match.group()
                 # From a string like '\u0008' get everything after `\u`
-                # and convert it to a character based on its int value
-                char = six.unichr(int(escaped[2:]))
+                # and convert it to a character based on its hex int value
+                char = six.unichr(int(escaped[2:], 16))
                 if Reader.NON_PRINTABLE.match(char):
                     string = '{before}{repl}{after}'.format(
                         before=string[:match.start()],
-- 
2.43.0


From 11d11645534477051a3355bca41def4bdfa1301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 42/89] fix: escape backslashes and newlines in quoted values
 of Markdown headers

---
 openformats/formats/github_markdown_v2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index f7650a7..78f0db2 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -276,7 +276,14 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         """
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
         if should_wrap:
+            is_block = openstring.flags and openstring.flags[-1] in '|>'
+            has_newline = self.NEWLINE in openstring.string and not is_block
+            if has_newline:
+                # Only double quotes can hold newlines
+                quote_char = self.DOUBLE_QUOTES
             string = self._wrap_in_quotes(openstring.string, quote_char)
+            if has_newline:
+                string = string.replace(self.NEWLINE, self.BACKSLASH + 'n')
         else:
             string = openstring.string
 
@@ -299,6 +306,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         :raise ValueError: if `quote_char` is not one of the valid values
         """
         if quote_char == '"':
+            string = string.replace(self.BACKSLASH, self.BACKSLASH * 2)
             string = string.replace(quote_char, self.BACKSLASH + quote_char)
         elif quote_char == u"'":
             string = string.replace(quote_char, quote_char * 2)
-- 
2.43.0


From ed8f997f93627b9b441ddbd27b8b6000af369295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 43/89] fix: don't alter the strings of Markdown headers when
 compiling

---
 openformats/formats/github_markdown_v2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 78f0db2..6a411ad 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import, unicode_literals
 
+import copy
 import re
 
 import six
@@ -52,6 +53,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
+                # Don't alter the string we were given
+                openstring = copy.copy(openstring)
+                openstring._strings = dict(openstring._strings)
                 self._escape_invalid_chars(openstring)
                 tr_string = self._transform_yaml_string(openstring)
 
-- 
2.43.0


From daa0166a9a00d7f7b810ecd0e29e593a13d48960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 44/89] fix: keep the indentation of [!NOTE] blocks when
 compiling Markdown

---
 openformats/formats/github_markdown_v2.py | 37 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 6a411ad..ebadbfd 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -40,6 +40,11 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
     SUPPORTED_BLOCK_LABELS = ['NOTE', 'TIP', 'WARNING', 'IMPORTANT', 'CAUTION']
 
+    # The start of a [!NOTE] block
+    BLOCK_LABEL = r'^\s*>\s{{0,4}}\[!({})\]'.format(
+        "|".join(SUPPORTED_BLOCK_LABELS)
+    )
+
     # A string that looks like '\u0008'
     ESCAPED_UNICODE = re.compile(r'\\u[a-fA-F0-9]{4}')
     # ... or '\x2D'
@@ -52,7 +57,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         for openstring in stringset:
             tr_string = openstring.string
-            if self._is_yaml_string(openstring):
+            is_yaml = self._is_yaml_string(openstring)
+            if is_yaml:
                 # Don't alter the string we were given
                 openstring = copy.copy(openstring)
                 openstring._strings = dict(openstring._strings)
@@ -60,6 +66,10 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 tr_string = self._transform_yaml_string(openstring)
 
             hash_position = template.index(openstring.template_replacement)
+            if not is_yaml and re.match(self.BLOCK_LABEL, tr_string):
+                tr_string = self._indent_block(
+                    tr_string, template[:hash_position]
+                )
             transcriber.copy_until(hash_position)
             transcriber.add(tr_string)
             transcriber.skip(len(openstring.template_replacement))
@@ -118,8 +128,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         order = len(stringset)
         curr_pos = 0
 
-        block_label_string = ("|").join(self.SUPPORTED_BLOCK_LABELS)
-        block_pattern = rf'^\s*>\s{{0,4}}\[!({block_label_string})\]'
+        block_pattern = self.BLOCK_LABEL
 
         for string in block.md_stringset:
             string = string_handler(string, md_template)
@@ -182,6 +191,28 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         return m.start(2), m.end(2)
 
+    def _indent_block(self, string, before):
+        """Indent the lines of a [!NOTE] block like its first line, which is
+        already indented in the template.
+
+        :param unicode string: the text of the block
+        :param unicode before: the part of the template before the block
+        :return: the text to put in the template
+        :rtype: unicode
+        """
+        indent = before[before.rfind(self.NEWLINE) + 1:]
+        if not re.match(r'^ *((?:[*+-]|\d+\.) +)*$', indent):
+            # Neither a line nor a list item starts here
+            return string
+        indent = ' ' * len(indent)
+        lines = string.split(self.NEWLINE)
+        own = len(lines[0]) - len(lines[0].lstrip(' '))
+        for i, line in enumerate(lines):
+            stripped = line.lstrip(' ')
+            line = line[min(own, len(line) - len(stripped)):]
+            lines[i] = indent + line if i and line else line
+        return self.NEWLINE.join(lines)
+
     def _is_yaml_string(self, string):
         """Return True if the given open string is in YAML format, False otherwise.
 
-- 
2.43.0


From bd90af0c88821b1173c24ed44100fe19ea6b3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 45/89] fix: don't place Markdown strings in parts that are not
 translatable

---
 openformats/formats/github_markdown.py    | 65 +++++++++++++++++---
 openformats/formats/github_markdown_v2.py | 72 ++++++++++-------------
 2 files changed, 89 insertions(+), 48 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index ad334d6..8410b3e 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -13,6 +13,48 @@ from ..utils.compilers import OrderedCompilerMixin
 from ..utils.newlines import find_newline_type, force_newline_type
 
 
+# The type of the tokens that hold no translatable string
+SKIP = 'skip'
+
+
+def find_string(token, string, template, position):
+    """
+    Find a string in the template. The search starts from the beginning of the
+    token that the string was extracted from, because the parts of the file
+    that are not translatable may hold the same text.
+    Parameters:
+    token: Tuple of (string, string_type), see `string_handler`.
+    string: the outcome of `string_handler` for the token
+    template: the template of the resource
+    position: the position of the template to start from
+
+    returns: Tuple of the position of the string in the template, which is -1
+             if there is no string there, and the position to start from when
+             looking for the next token
+    """
+
+    raw = token[0].strip('\n')
+    start = template.find(raw, position)
+    if string and start != -1 and string in raw:
+        if raw.startswith('#') and raw.endswith(string):
+            offset = len(raw) - len(string)
+        else:
+            offset = raw.index(string)
+        return start + offset, start + offset + len(string)
+    if string:
+        start = template.find(string, position)
+        if start != -1:
+            return start, start + len(string)
+    elif start != -1:
+        return -1, start + len(raw)
+    # Blocks inside of lists are indented in the template
+    match = re.compile(
+        ensure_unicode(r'\n *').join(re.escape(line)
+                                     for line in raw.split('\n'))
+    ).search(template, position)
+    return -1, match.end() if match else position
+
+
 def string_handler(token, template):
     """
     Extra checks and manipulation of extracted string from markdown file.
@@ -28,6 +70,8 @@ def string_handler(token, template):
 
     # Drop new lines around string.
     string, key = token
+    if key == SKIP:
+        return
     string = string.strip('\n')
     # for code blocks we need to maintain the exact indentation as in
     # the source file both for matching the string and replacing it in the
@@ -121,6 +165,8 @@ class TxBlockLexer(BlockLexer):
                     if 'header' in keys and 'cells' in keys:
                         self.md_stringset.extend(
                             [(h, 'header') for h in table_token['header']])
+                        # The line between the header and the cells
+                        self.md_stringset.append((m.group(2), SKIP))
                         self.md_stringset.extend(
                             [(cell, 'cell') for row in table_token['cells']
                                 for cell in row]
@@ -155,6 +201,8 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
         for line in yaml_header.splitlines():
             # ignore comments
             if line.startswith('#'):
+                if not block:
+                    yaml_strings.append((line, SKIP))
                 continue
             if block:
                 # at least 2 spaces more indented that the parent line
@@ -167,6 +215,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                     block_string = ''
                     block = False
             key_value = line.split(':', 1)
+            yaml_strings.append((key_value[0], SKIP))
             if len(key_value) == 2:
                 value = key_value[1].strip()
                 # we parse all the lines that follow the '|' or '>' symbols
@@ -219,18 +268,18 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
 
         order = 0
         curr_pos = 0
-        for string in (yaml_stringset + block.md_stringset):
-            string = string_handler(string, template)
-            if string and string in template[curr_pos:]:
+        for token in (yaml_stringset + block.md_stringset):
+            string = string_handler(token, template)
+            start, curr_pos = find_string(token, string, template, curr_pos)
+            if start != -1:
                 string_object = OpenString(six.text_type(order),
                                            string,
                                            order=order)
                 order += 1
                 stringset.append(string_object)
+                template = (template[:start] +
+                            string_object.template_replacement +
+                            template[start + len(string):])
                 # Keep track of the index of the last replaced hash
-                template = template[:curr_pos] + template[curr_pos:].replace(
-                    string, string_object.template_replacement, 1
-                )
-                curr_pos = template.find(string_object.template_replacement)
-                curr_pos = curr_pos + len(string_object.template_replacement)
+                curr_pos = start + len(string_object.template_replacement)
         return force_newline_type(template, newline_type), stringset
diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index ebadbfd..a73efe5 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -8,7 +8,9 @@ import unicodedata
 from mistune import Markdown
 from yaml.reader import Reader
 
-from openformats.formats.github_markdown import TxBlockLexer, string_handler
+from openformats.formats.github_markdown import (
+    TxBlockLexer, find_string, string_handler
+)
 from openformats.formats.yaml import YamlHandler
 from openformats.utils.compat import ensure_unicode
 
@@ -130,45 +132,35 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         block_pattern = self.BLOCK_LABEL
 
-        for string in block.md_stringset:
-            string = string_handler(string, md_template)
-            # Ignore any string that does not appear in the template,
-            # We do this to avoid parsing strings that are not properly
-            # handled by the Markdown library, such as ```code``` blocks
-            if string and (
-                bool(re.match(block_pattern, string))
-                or string in md_template[curr_pos:]
-            ):
-                # Special handling for [!NOTE] blocks
-                if bool(re.match(block_pattern, string)):
-                    start, end = self.find_fuzzy_substring(
-                        string, md_template, curr_pos
-                    )
-                    if start is not None and end is not None:
-                        string_object = OpenString(
-                            six.text_type(order), string, order=order
-                        )
-                        order += 1
-                        stringset.append(string_object)
-                        md_template = (
-                            md_template[:start] + string_object.template_replacement
-                            + md_template[end:]
-                        )
-                        curr_pos = start + len(string_object.template_replacement)
-                elif string in md_template[curr_pos:]:
-                    string_object = OpenString(
-                        six.text_type(order), string, order=order
-                    )
-                    order += 1
-                    stringset.append(string_object)
-                    # Keep track of the index of the last replaced hash
-                    md_template = (
-                        md_template[:curr_pos] + md_template[curr_pos:].replace(
-                            string, string_object.template_replacement, 1)
-                    )
-
-                    curr_pos = md_template.find(string_object.template_replacement)
-                    curr_pos = curr_pos + len(string_object.template_replacement)
+        for token in block.md_stringset:
+            string = string_handler(token, md_template)
+            # Special handling for [!NOTE] blocks
+            if string and re.match(block_pattern, string):
+                # The spaces at the end are left in the template
+                string = string.rstrip()
+                start, end = self.find_fuzzy_substring(
+                    string, md_template, curr_pos
+                ) or (None, None)
+            else:
+                # Ignore any string that does not appear in the template,
+                # We do this to avoid parsing strings that are not properly
+                # handled by the Markdown library, such as ```code``` blocks
+                start, end = find_string(token, string, md_template, curr_pos)
+                if start == -1:
+                    curr_pos = end
+                    continue
+            if start is not None:
+                string_object = OpenString(
+                    six.text_type(order), string, order=order
+                )
+                order += 1
+                stringset.append(string_object)
+                md_template = (
+                    md_template[:start] + string_object.template_replacement
+                    + md_template[end:]
+                )
+                # Keep track of the index of the last replaced hash
+                curr_pos = start + len(string_object.template_replacement)
 
         template = yaml_template + seperator + md_template
         return force_newline_type(template, newline_type), stringset
-- 
2.43.0


From 98d6b2d65e3208196bcc271482661be2376f5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:35 +0000
Subject: [PATCH 46/89] fix: read Markdown headers that are followed by a list,
 skip empty ones

---
 openformats/formats/github_markdown.py    | 16 +++++++++-------
 openformats/formats/github_markdown_v2.py | 14 +++++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 8410b3e..bfcd238 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -29,8 +29,8 @@ def find_string(token, string, template, position):
     position: the position of the template to start from
 
     returns: Tuple of the position of the string in the template, which is -1
-             if there is no string there, and the position to start from when
-             looking for the next token
+             if there is no string there, and the position of the template to
+             look for the next token from
     """
 
     raw = token[0].strip('\n')
@@ -40,7 +40,7 @@ def find_string(token, string, template, position):
             offset = len(raw) - len(string)
         else:
             offset = raw.index(string)
-        return start + offset, start + offset + len(string)
+        return start + offset, start + len(raw)
     if string:
         start = template.find(string, position)
         if start != -1:
@@ -99,7 +99,8 @@ def string_handler(token, template):
     # Drop # chars from beginning of the string
     match_header_line = re.search(ensure_unicode(r'^#+\s'), string)
     if match_header_line:
-        return string[match_header_line.end():]
+        string = string[match_header_line.end():]
+        return string if string.strip() else None
 
     # Extract Text from `[Text]: link` or `"[Text]: link"` lines
     match_reference = re.search(ensure_unicode(r'^"?\[([^\[^\]]+)\]:.+"?$'), string)
@@ -245,7 +246,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
         stringset = []
 
         yml_header = re.match(
-            ensure_unicode(r'^(---\s+)([\s\S]*?[^`])\s*(\n---\s+)(?!-)'),
+            ensure_unicode(r'^(---\s+)([\s\S]*?[^`])\s*(\n---\s+)(?!--)'),
             content
         )
         yaml_header_content = ''
@@ -270,6 +271,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
         curr_pos = 0
         for token in (yaml_stringset + block.md_stringset):
             string = string_handler(token, template)
+            # Keep track of where the last token ends
             start, curr_pos = find_string(token, string, template, curr_pos)
             if start != -1:
                 string_object = OpenString(six.text_type(order),
@@ -280,6 +282,6 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                 template = (template[:start] +
                             string_object.template_replacement +
                             template[start + len(string):])
-                # Keep track of the index of the last replaced hash
-                curr_pos = start + len(string_object.template_replacement)
+                curr_pos += (len(string_object.template_replacement) -
+                             len(string))
         return force_newline_type(template, newline_type), stringset
diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index a73efe5..e5daa6f 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -95,7 +95,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         stringset = []
 
         yml_header = re.match(
-            ensure_unicode(r'^(---\s+)([\s\S]*?[^`]\s*)(\n---\s+)(?!-)'),
+            ensure_unicode(r'^(---\s+)([\s\S]*?[^`]\s*)(\n---\s+)(?!--)'),
             content
         )
         yaml_header_content = ''
@@ -141,14 +141,17 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 start, end = self.find_fuzzy_substring(
                     string, md_template, curr_pos
                 ) or (None, None)
+                curr_pos = end or curr_pos
             else:
                 # Ignore any string that does not appear in the template,
                 # We do this to avoid parsing strings that are not properly
                 # handled by the Markdown library, such as ```code``` blocks
-                start, end = find_string(token, string, md_template, curr_pos)
+                start, curr_pos = find_string(
+                    token, string, md_template, curr_pos
+                )
                 if start == -1:
-                    curr_pos = end
                     continue
+                end = start + len(string)
             if start is not None:
                 string_object = OpenString(
                     six.text_type(order), string, order=order
@@ -159,8 +162,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                     md_template[:start] + string_object.template_replacement
                     + md_template[end:]
                 )
-                # Keep track of the index of the last replaced hash
-                curr_pos = start + len(string_object.template_replacement)
+                # Keep track of where the last token ends
+                curr_pos += (len(string_object.template_replacement) -
+                             (end - start))
 
         template = yaml_template + seperator + md_template
         return force_newline_type(template, newline_type), stringset
-- 
2.43.0


From eeea41d19ff476add116393fcb37d353d13ec590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 47/89] fix: quote Markdown header translations that YAML would
 not read back

---
 openformats/formats/github_markdown_v2.py | 33 ++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index e5daa6f..9006040 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -5,6 +5,7 @@ import re
 
 import six
 import unicodedata
+import yaml
 from mistune import Markdown
 from yaml.reader import Reader
 
@@ -326,6 +327,23 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         return string
 
+    def _is_plain_string(self, string, is_flow=False):
+        """Check if the given string can be written without any quotes.
+
+        :param unicode string: the string to check
+        :param bool is_flow: whether the string is inside of `[...]` or `{...}`
+        :return: whether or not YAML parsers will read the string as it is
+        :rtype: bool
+        """
+        if not string or string.startswith((self.BRACKET_LEFT, self.PIPE)):
+            return True
+        try:
+            return yaml.safe_load(
+                ('[{}]' if is_flow else '- {}').format(string)
+            ) == [string]
+        except yaml.YAMLError:
+            return False
+
     def _wrap_in_quotes(self, string, quote_char):
         """Wrap the given string in quotes, if necessary.
 
@@ -368,14 +386,17 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             return False, openstring.flags
 
         # If single or double quote flags appear, wrap it.
-        if openstring.flags in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
-            return True, openstring.flags
+        # (the flags of nested values also hold the style of their parents)
+        style = openstring.flags[-1:]
+        if style in [self.DOUBLE_QUOTES, self.SINGLE_QUOTE]:
+            return True, style
 
         string = openstring.string.strip()
 
         # If wrapped already in double quotes, don't wrap again
         wrapped_in_double_quotes = (
-            string.startswith(self.DOUBLE_QUOTES)
+            len(string) > 1
+            and string.startswith(self.DOUBLE_QUOTES)
             and string.endswith(self.DOUBLE_QUOTES)
         )
         if wrapped_in_double_quotes:
@@ -383,7 +404,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
         # If wrapped already in single quotes, don't wrap again
         wrapped_in_single_quotes = (
-            string.startswith(self.SINGLE_QUOTE)
+            len(string) > 1
+            and string.startswith(self.SINGLE_QUOTE)
             and string.endswith(self.SINGLE_QUOTE)
         )
         if wrapped_in_single_quotes:
@@ -420,6 +442,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
                 string.startswith(self.BRACKET_LEFT)
                 and not string.endswith(self.BRACKET_RIGHT)
             ),
+            not self._is_plain_string(
+                string, is_flow=openstring.flags.startswith('flow')
+            ),
         ])
         if should_wrap:
             return True, self.DOUBLE_QUOTES
-- 
2.43.0


From 4ceefb5d56236eedad5fffc7b7da1535a4c3fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 48/89] fix: report internationalized YAML files without a root
 key as parse errors

---
 openformats/formats/yaml/yaml_i18n.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 876f8b8..2c188b2 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -67,6 +67,9 @@ class I18nYamlHandler(YamlHandler):
         return True
 
     def _get_yaml_data_to_parse(self, yaml_data):
+        if not isinstance(yaml_data, dict) or not yaml_data:
+            raise ParseError("YAML file does not contain a root key.")
+
         keys = list(six.iterkeys(yaml_data))
         if len(keys) > 1:
             raise ParseError("YAML file contains more than one root keys.")
-- 
2.43.0


From 750b171eaea37493d9ec2b8041da4db5f6f76b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 49/89] fix: write internationalized YAML plurals so that any
 translation is read back

---
 openformats/formats/yaml/yaml.py      | 17 +++++++++---
 openformats/formats/yaml/yaml_i18n.py | 38 +++++++++++++--------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index eca13bc..d9842c2 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -98,8 +98,15 @@ class YamlHandler(Handler):
             style = node.get('style')
             if not value:
                 continue
-            if isinstance(value, dict) and not all(six.itervalues(value)):
-                continue
+            if isinstance(value, dict):
+                if not all(six.itervalues(value)):
+                    continue
+                # Block scalars include the end of their last line, which is
+                # left in the template
+                if end_ > start and content[end_ - 1] == '\n':
+                    end_ -= 1
+                    if content[end_ - 1] == '\r':
+                        end_ -= 1
             string_object = OpenString(
                 key, value, context=tag or '', flags=style, order=order,
             )
@@ -466,7 +473,9 @@ class YamlHandler(Handler):
             line += template[transcriber.ptr:hash_position]
             line = line[line.rfind('\n') + 1:]
             if string.pluralized:
-                translation = self._compile_pluralized(string)
+                translation = self._compile_pluralized(
+                    string, self._get_parent_indent(line)
+                )
             else:
                 translation = self._write_styled_literal(
                     string, self._get_parent_indent(line)
@@ -542,7 +551,7 @@ class YamlHandler(Handler):
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, parent_indent=None):
         """ Prepare a pluralized string to be added to the template
         """
         raise NotImplementedError
diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 2c188b2..5e6b6d1 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -108,11 +108,12 @@ class I18nYamlHandler(YamlHandler):
                 pass
         return {}
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, parent_indent=None):
         # Retrieve the styles of the plural rules that are stored in the
         # string's flag
         plural_styles_json = self._get_plural_styles(string)
 
+        is_flow = 'flow' in string.flags.split(':')
         plurals = []
         for rule, translation in six.iteritems(string.string):
             # If a translation contains a rule that does not exist in the
@@ -127,13 +128,16 @@ class I18nYamlHandler(YamlHandler):
             # single YAML rule and preserve the string's style
             plural = yaml.safe_dump(
                 {self.get_rule_string(rule): translation},
-                default_flow_style=False,
+                default_flow_style=is_flow,
                 default_style=plural_style,
                 allow_unicode=True,
                 width=float('inf'),
             )
             if isinstance(plural, six.binary_type):
                 plural = plural.decode('utf8')
+            if is_flow:
+                # Remove the curly brackets
+                plural = plural.strip()[1:-1] + '\n'
             # The safe_dump method places quotes around the keys too, which are
             # unnecessary. Remove them using the regular expression below. By
             # default, the safe_dump method wraps the keys in double quotes
@@ -146,22 +150,20 @@ class I18nYamlHandler(YamlHandler):
                 )
             except re.error:
                 pass
-            # The safe_dump method appends a dash in the folded and literal
-            # styles. We need to remove it for consistency between the compiled
-            # file and the original one
-            if plural_style in ['|', '>']:
-                plural = plural.replace('|-', '|').replace('>-', '>')
             plurals.append(plural)
 
         # Calculate the indentation we need to prepend to each line of the
         # plural rules
         indentation_levels = len(string.key.split('.')) + self.extra_indent
         indent = " " * indentation_levels * self.indent
-        plural_entry = self._indent_plurals(plurals, indent, flow='flow' in string.flags)
+        if parent_indent is not None and not is_flow:
+            # The position of the plural in the template is more reliable
+            indent = " " * (parent_indent + self.indent)
+        plural_entry = self._indent_plurals(plurals, indent, flow=is_flow)
 
         # Hash replacement in template is already indented in the template
         # so for the first line we need to keep on one level of indentation
-        if 'flow' in string.flags:
+        if is_flow:
             return plural_entry[(len(indent)):]
         else:
             return plural_entry[(len(indent) - self.indent):]
@@ -171,15 +173,11 @@ class I18nYamlHandler(YamlHandler):
         Slightly different rules for when handling plurals in regular yaml
         syntax vs when handling in flow syntax"""
         # First apply the indentation to the literal values that start in a new
-        # line. We need to search for newline characters followed by a number
-        # of spaces.
-        try:
-            plurals = [
-                re.sub('\n(\s+)', '\n{}\g<1>'.format(indentation), line)
-                for line in plurals
-            ]
-        except re.error:
-            pass
+        # line, except for their empty lines.
+        plurals = [
+            re.sub('\n(?=[^\n])', '\n{}'.format(indentation), line)
+            for line in plurals
+        ]
         # Apply the indentation to the beginning of each plural rule
         joined = u''.join([
             u"{indentation}{line}".format(indentation=indentation,
@@ -189,9 +187,9 @@ class I18nYamlHandler(YamlHandler):
         # strip trailing comma
         if flow:
             joined = joined[:-1]
-        # Remove trailing newlines since there is already one after each
+        # Remove the trailing newline since there is already one after each
         # pluralized string on the template
-        return joined.strip('\n')
+        return joined[:-1] if joined.endswith('\n') else joined
 
     def _parse_pluralized_leaf_node(self, node, parent_key, style=[],
                                     pluralized=False):
-- 
2.43.0


From 16d31be5998288db1f8099bcd7a357491374ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 50/89] fix: find where internationalized YAML plurals in flow
 style start

---
 openformats/formats/yaml/yaml_i18n.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 5e6b6d1..c2a0b19 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -66,6 +66,11 @@ class I18nYamlHandler(YamlHandler):
 
         return True
 
+    def parse(self, content, **kwargs):
+        # Needed in order to find out where plurals start
+        self._content = content
+        return super(I18nYamlHandler, self).parse(content, **kwargs)
+
     def _get_yaml_data_to_parse(self, yaml_data):
         if not isinstance(yaml_data, dict) or not yaml_data:
             raise ParseError("YAML file does not contain a root key.")
@@ -247,10 +252,12 @@ class I18nYamlHandler(YamlHandler):
         # }
         # we want to return exactly where 'bcd' starts,
         # so that template generation picks up both the indentation and the {.
-        # So 1) we get the top-most element: bcd.
-        # 2) We get it's start position (where 'efg' starts).
-        # 3) We move back len('bcd") + len(' ') + len(':') from it.
-        return min([entry.start - len(name) - 2 for name, entry in six.iteritems(node)])
+        # So we get the position where 'efg' starts, find the bracket that
+        # precedes it and skip the whitespace that follows the bracket.
+        value_start = min([entry.start for entry in six.itervalues(node)])
+        start = self._content.rindex('{', 0, value_start) + 1
+        text = self._content[start:value_start]
+        return start + len(text) - len(text.lstrip())
 
     def _parse_pluralized_value(self, node):
         """ Parses input value into an OpenString pluralized value
-- 
2.43.0


From 17e3b7b485eeb14d333f101c7a2339036f316c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 51/89] fix: escape unusual line breaks of internationalized
 YAML plurals

---
 openformats/formats/yaml/yaml_i18n.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index c2a0b19..f7884f7 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -129,6 +129,9 @@ class I18nYamlHandler(YamlHandler):
                                                    u'')
             plural_style = plural_styles_json.get(six.text_type(rule),
                                                   default_style)
+            if re.search(u'[\x85\u2028\u2029]', translation):
+                # Unusual line breaks can only be escaped
+                plural_style = u'"'
             # Dump a Python dictionary that contains a single plural rule as a
             # single YAML rule and preserve the string's style
             plural = yaml.safe_dump(
-- 
2.43.0


From 58a99af353b1a6deac6c708ee4228ea71ddb1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 52/89] fix: escape trailing empty lines of internationalized
 YAML plurals

---
 openformats/formats/yaml/yaml_i18n.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index f7884f7..79a8116 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -129,8 +129,10 @@ class I18nYamlHandler(YamlHandler):
                                                    u'')
             plural_style = plural_styles_json.get(six.text_type(rule),
                                                   default_style)
-            if re.search(u'[\x85\u2028\u2029]', translation):
-                # Unusual line breaks can only be escaped
+            if (re.search(u'[\x85\u2028\u2029]', translation) or
+                    re.search(u'(^|\n)\n$', translation)):
+                # Unusual line breaks can only be escaped. Blocks that end in
+                # empty lines would be followed by an end of document marker.
                 plural_style = u'"'
             # Dump a Python dictionary that contains a single plural rule as a
             # single YAML rule and preserve the string's style
-- 
2.43.0


From 529a6042b8459c03d6a187e8769950551c178738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 53/89] fix: keep texts and paragraphs when hyperlinks of
 Office files lose parts

Removing the surplus text elements of a hyperlink removed the whole
hyperlink with its other texts, removing a hyperlink of many runs removed
the paragraph and whitespace between texts was duplicated.
---
 openformats/formats/docx.py                   | 13 +++++++++---
 openformats/formats/office_open_xml/parser.py | 20 +++++++++----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 1f8a8ba..781a8ed 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -229,16 +229,23 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-        text_element.parent.parent.unwrap()
+        hyperlink = text_element.parent.parent
+        # Already unwrapped if it contains more than one text elements
+        if hyperlink.name == 'hyperlink':
+            hyperlink.unwrap()
 
     @classmethod
     def remove_text_element(cls, text_element):
+        hyperlink = None
         if text_element.find_parent('w:r') is not None:
             run_parent = text_element.find_parent('w:r').parent
             if run_parent.name == 'hyperlink':
-                return text_element.find_parent('w:hyperlink').decompose()
+                hyperlink = run_parent
 
-        return text_element.decompose()
+        text_element.decompose()
+        # Remove the hyperlink too, unless there is more text in it
+        if hyperlink is not None and not hyperlink.text.strip():
+            hyperlink.decompose()
 
     @classmethod
     def set_rtl_orientation(cls, paragraph):
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d1aeff0..4bac08b 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -184,7 +184,7 @@ class OfficeOpenXmlHandler(object):
 
         added_hl_text_elements = defaultdict(list)
         deleted_hl_text_elements = defaultdict(list)
-        empty_text_element = None
+        empty_text_elements = []
         elements_for_removal = []
         last_element = None
 
@@ -201,20 +201,23 @@ class OfficeOpenXmlHandler(object):
             # detect text elements that contain no text
             # and remove leading whitespace from the next string
             if not text.strip():
-                leading_spaces = len(text) - len(text.strip())
-                empty_text_element = text_element
+                leading_spaces += len(text) - len(text.strip())
+                empty_text_elements.append(text_element)
                 continue
 
-            last_element = text_element
+            preceding_spaces, leading_spaces = leading_spaces, 0
+            preceding_elements, empty_text_elements = empty_text_elements, []
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
             except MissingParentError:
                 continue
+            last_element = text_element
 
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
             # any exceeding part from the document
             if len(translation_soup) == 0:
+                elements_for_removal.extend(preceding_elements)
                 elements_for_removal.append(text_element)
                 continue
             else:
@@ -222,13 +225,10 @@ class OfficeOpenXmlHandler(object):
                 translation = six.text_type(translation_part)
                 translation_hyperlink_url = cls.get_translation_hyperlink(translation_part)
 
-                if not translation[:leading_spaces].strip():
-                    translation = translation[leading_spaces:]
-                    leading_spaces = 0
+                if not translation[:preceding_spaces].strip():
+                    translation = translation[preceding_spaces:]
                 else:
-                    if empty_text_element:
-                        elements_for_removal.append(empty_text_element)
-                        empty_text_element = None
+                    elements_for_removal.extend(preceding_elements)
 
                 text_element.clear()
                 text_element.insert(0, translation)
-- 
2.43.0


From 58f2e00661ad61e57252f3463fa5092881b7db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 54/89] fix: don't change other links when the URL of an Office
 hyperlink changes

Hyperlinks that share a relationship were all changed, IDs without digits
made adding a hyperlink fail.
---
 openformats/formats/docx.py                   | 22 +---------
 openformats/formats/office_open_xml/parser.py | 41 +++++++++++++++++++
 openformats/formats/pptx.py                   | 21 +---------
 3 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 781a8ed..29e71da 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -1,7 +1,6 @@
 import io
 import itertools
 import os
-import re
 import shutil
 import tempfile
 import uuid
@@ -198,28 +197,11 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         run_parent = element.find_parent('w:r').parent
 
         if run_parent.name == 'hyperlink':
-            rel = document_rels.find(
-                attrs={"Id": run_parent.attrs.get('r:id')}
-            )
-            if rel and rel.attrs['TargetMode'] == 'External':
-                rel.attrs['Target'] = url
+            cls.set_hyperlink_target(run_parent, document_rels, url)
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
-        max_rid = max([
-            int(re.findall(r'\d+', e["Id"])[0])
-            for e in document_rels.find_all(attrs={"Id": True})
-        ])
-
-        rid = "rId{}".format(max_rid+1)
-        hyperlink_rel = document_rels.new_tag(
-            "Relationship",
-            TargetMode="External",
-            Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
-            Target=url,
-            Id=rid
-        )
-        document_rels.Relationships.append(hyperlink_rel)
+        rid = cls.create_hyperlink_rel(document_rels, url)
         hyperlink = document_rels.new_tag(
             "w:hyperlink",
             **{"r:id": rid}
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 4bac08b..52f54db 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,3 +1,4 @@
+import re
 import six
 from copy import copy
 
@@ -20,6 +21,46 @@ class OfficeOpenXmlHandler(object):
     def create_hyperlink_url(cls, element, document_rels, url):
         raise NotImplementedError
 
+    @staticmethod
+    def create_hyperlink_rel(document_rels, url):
+        """ Add a relationship for a hyperlink and return its ID. """
+        max_rid = max([0] + [
+            int(number)
+            for e in document_rels.find_all(attrs={"Id": True})
+            for number in re.findall(r'\d+', e["Id"])[:1]
+        ])
+
+        rid = "rId{}".format(max_rid+1)
+        hyperlink_rel = document_rels.new_tag(
+            "Relationship",
+            TargetMode="External",
+            Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
+            Target=url,
+            Id=rid
+        )
+        document_rels.Relationships.append(hyperlink_rel)
+        return rid
+
+    @classmethod
+    def set_hyperlink_target(cls, hyperlink, document_rels, url):
+        """ Set the URL of an element that refers to a relationship, without
+            affecting other elements that refer to the same one.
+        """
+        rid = hyperlink.attrs.get('r:id')
+        rel = document_rels.find(attrs={"Id": rid})
+        if not rel or rel.attrs.get('TargetMode') != 'External':
+            return
+        if rel.attrs['Target'] == url:
+            return
+
+        document = list(hyperlink.parents)[-1]
+        if len(document.find_all(attrs={'r:id': rid}, limit=2)) > 1:
+            hyperlink.attrs['r:id'] = cls.create_hyperlink_rel(
+                document_rels, url
+            )
+        else:
+            rel.attrs['Target'] = url
+
     @classmethod
     def remove_hyperlink(cls, text_element):
         raise NotImplementedError
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 642715c..702e624 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -291,31 +291,14 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
         hyperlinks = parent.find_all('a:hlinkClick', limit=1)
         if hyperlinks:
-            rel = document_rels.find(
-                attrs={'Id': hyperlinks[0].attrs.get('r:id')}
-            )
-            if rel and rel.attrs.get('TargetMode') == 'External':
-                rel.attrs['Target'] = url
+            cls.set_hyperlink_target(hyperlinks[0], document_rels, url)
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
         if cls.get_hyperlink_url(element, document_rels):
             cls.set_hyperlink_url(element, document_rels, url)
         else:
-            max_rid = max([
-                int(re.findall(r'\d+', e["Id"])[0])
-                for e in document_rels.find_all(attrs={"Id": True})
-            ])
-
-            rid = "rId{}".format(max_rid+1)
-            hyperlink_rel = document_rels.new_tag(
-                "Relationship",
-                TargetMode="External",
-                Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
-                Target=url,
-                Id=rid
-            )
-            document_rels.Relationships.append(hyperlink_rel)
+            rid = cls.create_hyperlink_rel(document_rels, url)
             hyperlink = document_rels.new_tag(
                 "a:hlinkClick",
                 **{"r:id": rid}
-- 
2.43.0


From 03753155095367012ff73071557d4cec2d6855b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 55/89] fix: put the properties of right to left DOCX
 paragraphs first

---
 openformats/formats/docx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 29e71da..46b40ad 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -236,7 +236,7 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
         if len(ppr_tags) == 0:
             pPr = soup.new_tag("w:pPr")
-            paragraph.append(pPr)
+            paragraph.insert(0, pPr)
             ppr_tags = [pPr]
 
         for ppr_tag in ppr_tags:
-- 
2.43.0


From 96ac1888b904f133317e0a0ff3b34d51425c1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 56/89] fix: read hyperlinks of DOCX files whose relationships
 start with a BOM

---
 openformats/formats/docx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 46b40ad..f065d5c 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -147,6 +147,12 @@ class DocxFile(object):
             with io.open(self.__document_rels_path, 'r') as f:
                 self.__document_rels = f.read()
 
+            if self.__document_rels.startswith("\ufeff"):
+                # Remove BOM
+                self.__document_rels = self.__document_rels.replace(
+                    "\ufeff", ""
+                )
+
         return self.__document_rels
 
     def set_document_rels(self, document_rels):
-- 
2.43.0


From 5f29fc1319af5b7578f6449c0f28c90fb61eae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 57/89] fix: add hyperlinks to PPTX texts that have no
 properties

---
 openformats/formats/pptx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 702e624..e13834e 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -303,7 +303,11 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
                 "a:hlinkClick",
                 **{"r:id": rid}
             )
-            element.parent.rPr.append(hyperlink)
+            properties = element.parent.rPr
+            if properties is None:
+                properties = document_rels.new_tag("a:rPr")
+                element.parent.insert(0, properties)
+            properties.append(hyperlink)
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-- 
2.43.0


From d8fc3d2bca973104fa175b2836f904358d7141ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 58/89] fix: don't extract blank PPTX paragraphs, keep texts
 and fields in place (V2)

Text elements without text took parts of the translations of others and
surplus parts were added to fields.
---
 openformats/formats/pptx.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index e13834e..d0f4c50 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -402,6 +402,7 @@ class PptxHandlerV2(PptxHandler):
     @classmethod
     def parse_paragraph(cls, paragraph, rels_soup):
         paragraph_text = []
+        has_text = False
         text_elements = paragraph.find_all(cls.TEXT_ELEMENT_TAG)
         if not text_elements:
             return None
@@ -419,6 +420,8 @@ class PptxHandlerV2(PptxHandler):
             except MissingParentError:
                 continue
 
+            has_text = has_text or bool(text.strip())
+
             if all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
@@ -461,7 +464,7 @@ class PptxHandlerV2(PptxHandler):
             open_hyperlink = None
 
         paragraph_text = u''.join(paragraph_text)
-        if not paragraph_text.strip():
+        if not has_text:
             return None
 
         open_string = OpenString(
@@ -503,11 +506,15 @@ class PptxHandlerV2(PptxHandler):
             cls.set_rtl_orientation(paragraph)
 
         for _, text_element in enumerate(text_elements):
-            last_element = text_element
+            # there is no part of the translation for elements without text
+            if not text_element.text:
+                continue
+
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
             except MissingParentError:
                 continue
+            last_element = text_element
 
             # the text parts of the translation are less that the
             # text parts of the document, so we will just remove
-- 
2.43.0


From aec0c57aa5d8745c26f5eb0e0787b097e257adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 59/89] fix: read parts of PPTX and XLSX files that start with
 a BOM

They were parsed and written as empty files.
---
 openformats/formats/office_open_xml/parser.py |  8 +++++++
 openformats/formats/pptx.py                   | 15 ++++++-------
 openformats/formats/xlsx_unstructured.py      | 21 ++++++-------------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 52f54db..ce8c8f4 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,3 +1,4 @@
+import io
 import re
 import six
 from copy import copy
@@ -8,6 +9,13 @@ from bs4 import BeautifulSoup
 from collections import defaultdict
 
 
+def read_xml(path):
+    """ Read an XML file without its BOM, which BeautifulSoup can't parse. """
+    with io.open(path, 'r') as f:
+        content = f.read()
+    return content[1:] if content.startswith(u"\ufeff") else content
+
+
 class OfficeOpenXmlHandler(object):
     @classmethod
     def get_hyperlink_url(cls, element, document_rels):
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index d0f4c50..890c176 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -11,7 +11,7 @@ import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
 from openformats.exceptions import MissingParentError
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler, read_xml
 from openformats.strings import OpenString
 from collections import defaultdict
 
@@ -107,8 +107,7 @@ class PptxFile(object):
         content_types_path = '{}/{}'.format(
             self.__tmp_folder, '[Content_Types].xml'
         )
-        with io.open(content_types_path, 'r') as f:
-            content_types = f.read()
+        content_types = read_xml(content_types_path)
 
         slide_content_type = 'application/vnd.openxmlformats-officedocument.presentationml.slide+xml'  # noqa
         slide_paths = [
@@ -172,8 +171,9 @@ class PptxFile(object):
 
     def get_slide(self, slide):
         if self.__slides[slide]['slide']['content'] is None:
-            with io.open(self.__slides[slide]['slide']['path'], 'r') as f:
-                self.__slides[slide]['slide']['content'] = f.read()
+            self.__slides[slide]['slide']['content'] = read_xml(
+                self.__slides[slide]['slide']['path']
+            )
 
         return self.__slides[slide]['slide']['content']
 
@@ -188,8 +188,9 @@ class PptxFile(object):
 
     def get_slide_rels(self, slide):
         if self.__slides[slide]['rels']['content'] is None:
-            with io.open(self.__slides[slide]['rels']['path'], 'r') as f:
-                self.__slides[slide]['rels']['content'] = f.read()
+            self.__slides[slide]['rels']['content'] = read_xml(
+                self.__slides[slide]['rels']['path']
+            )
 
         return self.__slides[slide]['rels']['content']
 
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f3a0f48..565bb5d 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -13,7 +13,7 @@ from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
 
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler, read_xml
 from openformats.handlers import Handler
 from openformats.strings import OpenString
 
@@ -81,8 +81,7 @@ class XlsxFile(object):
         </c>
         """
         content_types_file_path = "{}/{}".format(self.__tmp_folder, self.CONTENT_TYPES)
-        with io.open(content_types_file_path, "r") as f:
-            content_types_file = f.read()
+        content_types_file = read_xml(content_types_file_path)
         content_types_soup = BeautifulSoup(content_types_file,'xml')
 
         workbook_path_internal = content_types_soup.find(
@@ -146,18 +145,14 @@ class XlsxFile(object):
         return self._comment_paths
 
     def get_workbook_content(self):
-        with open(self.get_workbook_path(), "r") as f:
-            workbook_content = f.read()
-        return workbook_content
+        return read_xml(self.get_workbook_path())
 
     def set_workbook_content(self, content):
         with open(self.get_workbook_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_sheet_content(self, sheet):
-        with open(self.get_sheet(sheet)["path"], "r") as f:
-            sheet_content = f.read()
-        return sheet_content
+        return read_xml(self.get_sheet(sheet)["path"])
 
     def set_sheet_content(self, sheet, content):
         with open(self.get_sheet(sheet)["path"], "w") as f:
@@ -167,18 +162,14 @@ class XlsxFile(object):
         return os.path.exists(self.get_sheet(sheet)["rels_path"])
 
     def get_sheet_rels_content(self, sheet):
-        with open(self.get_sheet(sheet)["rels_path"], "r") as f:
-            sheet_rels = f.read()
-        return sheet_rels
+        return read_xml(self.get_sheet(sheet)["rels_path"])
 
     def set_sheet_rels_content(self, sheet, content):
         with open(self.get_sheet(sheet)["rels_path"], "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
-        with open(self.get_shared_strings_path(), "r") as f:
-            shared_strings_content = f.read()
-        return shared_strings_content
+        return read_xml(self.get_shared_strings_path())
 
     def set_shared_strings_content(self, content):
         with open(self.get_shared_strings_path(), "w") as f:
-- 
2.43.0


From cd7e48a997c2d6ea472b4d11556171207471a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 60/89] fix: handle XLSX files without shared strings

---
 openformats/formats/xlsx_unstructured.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 565bb5d..5e13681 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -124,10 +124,15 @@ class XlsxFile(object):
                 "id": sheet_item["id"]
             }
 
-        shared_strings_path_internal = content_types_soup.find(
+        # The shared strings may be missing, if all strings are inline
+        shared_strings_item = content_types_soup.find(
             attrs={'ContentType': self.SHARED_STRINGS_CONTENT_TYPE}
-        )["PartName"]
-        self._shared_strings_path = "{}{}".format(self.__tmp_folder, shared_strings_path_internal)
+        )
+        self._shared_strings_path = None
+        if shared_strings_item:
+            self._shared_strings_path = "{}{}".format(
+                self.__tmp_folder, shared_strings_item["PartName"]
+            )
 
     def get_workbook_path(self):
         return self._workbook_path
@@ -169,9 +174,13 @@ class XlsxFile(object):
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
+        if self.get_shared_strings_path() is None:
+            return ""
         return read_xml(self.get_shared_strings_path())
 
     def set_shared_strings_content(self, content):
+        if self.get_shared_strings_path() is None:
+            return
         with open(self.get_shared_strings_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
-- 
2.43.0


From 4d69e4a5a1902977f43f897d1d275c77d43120fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 61/89] fix: keep the URLs of XLSX hyperlinks that contain
 single quotes

---
 openformats/formats/xlsx_unstructured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 5e13681..632d815 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -203,7 +203,8 @@ class XlsxFile(object):
 def wrap(string, hyperlink=None):
     href = ""
     if hyperlink:
-        href = " href='{}'".format(hyperlink)
+        quote = '"' if "'" in hyperlink else "'"
+        href = " href={}{}{}".format(quote, hyperlink, quote)
     return "<tx{}>{}</tx>".format(href, string)
 
 
-- 
2.43.0


From c48a1a3a8bb133b6dc0afbe863141fc906d579be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 62/89] fix: escape quotes in XLSX hyperlink formulas, keep the
 rest of the formula

---
 openformats/formats/xlsx_unstructured.py | 37 ++++++++++++++++--------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 632d815..223de21 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -208,6 +208,20 @@ def wrap(string, hyperlink=None):
     return "<tx{}>{}</tx>".format(href, string)
 
 
+def find_hyperlink_formula(formula):
+    """ Find a call of HYPERLINK with two constants in a formula.
+
+    Returns the match and the unescaped link and text.
+    """
+    match = re.search(
+        r'HYPERLINK\("((?:[^"]|"")*)","((?:[^"]|"")*)"\)', formula
+    )
+    if not match:
+        return None, None, None
+    link, text = [group.replace('""', '"') for group in match.groups()]
+    return match, link, text
+
+
 class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
     PROCESSES_BINARY = True
     EXTRACTS_RAW = False
@@ -320,8 +334,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
-                    link, text = match.groups() if match else (None, None)
+                    match, link, text = find_hyperlink_formula(link_content)
                     if link and text:
                         string = wrap(text, link)
                 else:
@@ -522,18 +535,18 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
-                    link, text = match.groups() if match else (None, None)
+                    match, link, text = find_hyperlink_formula(link_content)
                     if link and text:
                         translation = "".join(translation_parts)
-                        if target_url:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{target_url}","{translation}")'
-                            )
-                        else:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{link}","{translation}")'
-                            )
+                        hyperlink_formula = 'HYPERLINK("{}","{}")'.format(
+                            (target_url or link).replace('"', '""'),
+                            translation.replace('"', '""'),
+                        )
+                        sheet_text_cell.f.string = (
+                            link_content[:match.start()] +
+                            hyperlink_formula +
+                            link_content[match.end():]
+                        )
 
                 else:
                     t_strings = replace_string_to.find_all("t")
-- 
2.43.0


From 79b87091785ef260c64f911f6be02bedd98ee1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 63/89] fix: write the orientation of XLSX sheets as an XML
 boolean

---
 openformats/formats/xlsx_unstructured.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 223de21..1eabe94 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -447,9 +447,10 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 )
 
             if is_rtl is not None:
-                sheet_view = sheet_soup.find("sheetView")
-                if sheet_view:
-                    sheet_view.attrs["rightToLeft"] = is_rtl
+                for sheet_view in sheet_soup.find_all("sheetView"):
+                    sheet_view.attrs["rightToLeft"] = (
+                        "true" if is_rtl else "false"
+                    )
 
             sheet_text_cells = sheet_soup.find_all(
                 "c",
-- 
2.43.0


From facd15c7c6d2bd61cd4890e585c11306a3141382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 64/89] fix: don't leave attributes of the template in compiled
 XLSX files

---
 openformats/formats/xlsx_unstructured.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 1eabe94..479fe81 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -319,6 +319,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
                 if cell_hyper_link and shared_string_element:
                     sheet_text_cell.v.replace_with(copy.copy(shared_string_element))
+                    sheet_text_cell.si.attrs.pop("txid", None)
                     sheet_text_cell.si.name = "is"
                     find_string_from = sheet_text_cell
                     sheet_text_cell.attrs["t"] = "inlineStr"
@@ -417,13 +418,14 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             txid = sheet.attrs.get("txid")
             if not txid:
                 continue
+            # Not a valid attribute for the final file
+            sheet.attrs.pop("txid", None)
             open_string = stringset.get(txid)
 
             if not open_string:
                 continue
 
             sheet.attrs["name"] = open_string.string
-            sheet.attrs.pop("txid", None)
         xlsx.set_workbook_content(workbook_soup)
 
 
@@ -494,6 +496,8 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 if not replace_string_to:
                     continue
 
+                # Not a valid attribute for the final file
+                replace_string_to.attrs.pop("txid", None)
                 open_string = stringset.get(txid)
 
                 if not open_string:
@@ -568,7 +572,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                             t_string.string = ""
                             continue
                         t_string.string = translation
-                replace_string_to.attrs.pop("txid", None)
             xlsx.set_sheet_content(sheet, sheet_soup)
             xlsx.set_shared_strings_content(shared_strings_soup)
             if xlsx.has_rels(sheet):
-- 
2.43.0


From ec38cb99777721b3dcbea4482b05353445b11a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 65/89] fix: keep the white space between the texts of an XLSX
 cell

---
 openformats/formats/xlsx_unstructured.py | 56 +++++++++++++-----------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 479fe81..56d9063 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -386,27 +386,29 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
     @staticmethod
     def _prepare_string(input_list, n):
+        """ Arrange the parts of a translation in at most `n` texts.
+
+            Parts that are white space are joined with the next part and
+            exceeding parts with the last text.
+        """
         cleaned_strings = []
-        spaces = 0
-        for i, string in enumerate(input_list):
-            tmp_string = string
+        spaces = ""
+        for string in input_list:
             if len(string.strip()) == 0:
+                spaces += string
                 continue
-            elif len(string) > 0 and not string.strip():
-                spaces = len(string)
-            else:
-                if spaces:
-                    spaces_text = {spaces * " "}
-                    if len(cleaned_strings) > 0:
-                        tmp_string = "{}{}".format(spaces_text, string)
-                    else:
-                        tmp_string = "{}{}".format(string, spaces_text)
-                    spaces=0
+            tmp_string = spaces + string
+            spaces = ""
             if len(cleaned_strings) >= n:
                 cleaned_strings[-1] += tmp_string
             else:
                 cleaned_strings.append(tmp_string)
 
+        if spaces and cleaned_strings:
+            cleaned_strings[-1] += spaces
+        elif spaces:
+            cleaned_strings.append(spaces)
+
         return cleaned_strings
 
     def _compile_workbook(self, xlsx, stringset):
@@ -557,21 +559,25 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     t_strings = replace_string_to.find_all("t")
                     t_strings_len = len(t_strings)
 
-                    translation_parts_cleaned = self._prepare_string(
-                        translation_parts, t_strings_len
-                    )
+                    text_strings = [
+                        t_string for t_string in t_strings if t_string.text
+                    ]
+                    if [
+                        not t_string.text.strip() for t_string in text_strings
+                    ] == [not part.strip() for part in translation_parts]:
+                        # White space is where it was in the source
+                        t_strings = text_strings
+                    else:
+                        translation_parts = self._prepare_string(
+                            translation_parts, t_strings_len
+                        )
 
                     for t_string in t_strings:
-                        translation = (
-                            translation_parts_cleaned.pop(0)
-                            if translation_parts_cleaned
-                            else None
+                        t_string.string = (
+                            translation_parts.pop(0)
+                            if translation_parts
+                            else ""
                         )
-
-                        if not translation:
-                            t_string.string = ""
-                            continue
-                        t_string.string = translation
             xlsx.set_sheet_content(sheet, sheet_soup)
             xlsx.set_shared_strings_content(shared_strings_soup)
             if xlsx.has_rels(sheet):
-- 
2.43.0


From 4e558112d69cda892713ae0d24177d9ab1f5a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 66/89] fix: don't extract XLSX hyperlinks that have no text

---
 openformats/formats/xlsx_unstructured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 56d9063..d84fa64 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -349,7 +349,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                         string_parts.append(text)
                     string = "".join(string_parts)
 
-                    if cell_hyper_link:
+                    if cell_hyper_link and string:
                         string = wrap(string, cell_hyper_link)
 
                 if string:
-- 
2.43.0


From 6ef4bf7a7672daf71390a093c80dd36c65eed3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 67/89] fix: find the names of XLSX sheets when the tabs are
 reordered

---
 openformats/formats/xlsx_unstructured.py | 35 ++++++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index d84fa64..ff84abd 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -2,6 +2,7 @@ import copy
 import io
 import itertools
 import os
+import posixpath
 import re
 import shutil
 import tempfile
@@ -87,6 +88,7 @@ class XlsxFile(object):
         workbook_path_internal = content_types_soup.find(
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
+        self._workbook_path_internal = workbook_path_internal
         self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
 
         comment_paths_internal = {
@@ -156,6 +158,21 @@ class XlsxFile(object):
         with open(self.get_workbook_path(), "w") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
+    def get_workbook_targets(self):
+        """ The internal path of each relationship of the workbook. """
+        rels_path = get_rels_path(self.get_workbook_path())
+        if not os.path.exists(rels_path):
+            return {}
+        folder = posixpath.dirname(self._workbook_path_internal)
+        return {
+            relationship["Id"]: posixpath.normpath(
+                posixpath.join(folder, relationship["Target"])
+            )
+            for relationship in BeautifulSoup(
+                read_xml(rels_path), "xml"
+            ).find_all("Relationship")
+        }
+
     def get_sheet_content(self, sheet):
         return read_xml(self.get_sheet(sheet)["path"])
 
@@ -234,6 +251,8 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         )
         sheets = wordbook_soup.find_all("sheet")
         sheet_names = []
+        targets = xlsx.get_workbook_targets()
+        names_by_path = {}
         for sheet in sheets:
             open_string = OpenString(
                 sheet["name"],
@@ -241,15 +260,17 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             )
             sheet.attrs['txid'] = open_string.string_hash
             sheet_names.append(open_string)
+            path = targets.get(sheet.attrs.get("r:id"))
+            names_by_path[path] = sheet["name"]
         xlsx.set_workbook_content(wordbook_soup)
-        return sheet_names
+        return sheet_names, names_by_path
 
     def parse(self, content, **kwargs):
         xlsx = XlsxFile(content)
 
         order = itertools.count()
 
-        sheet_names = self._extract_sheet_names(xlsx)
+        sheet_names, names_by_path = self._extract_sheet_names(xlsx)
 
         shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
         shared_strings = shared_strings_soup.find_all("si")
@@ -264,10 +285,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             elif sheet_name not in extracted_strings[sheet_name.string]["sheets"]:
                 extracted_strings[sheet_name.string]["sheets"].append(sheet_name.string)
 
-        sheet_index = -1
-        for sheet, sheet_details in xlsx.get_sheets().items():
-            sheet_index += 1
-            sheet_name = sheet_names[sheet_index].string
+        for sheet_index, sheet in enumerate(xlsx.get_sheets()):
+            # Fall back to the order of the sheets for broken workbooks
+            sheet_name = names_by_path.get(sheet)
+            if sheet_name is None and sheet_index < len(sheet_names):
+                sheet_name = sheet_names[sheet_index].string
+            sheet_name = sheet_name or ""
 
             sheet_soup = BeautifulSoup(xlsx.get_sheet_content(sheet), "xml")
             sheet_rels_soup = None
-- 
2.43.0


From dca03c1246f1094f80e4cb30f00e777338782123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 68/89] fix: report malformed XML of Android files as
 ParseError

---
 openformats/formats/beta_android.py | 37 ++++++++++++++++++++++++-----
 openformats/utils/xml.py            | 20 ++++++++++++----
 2 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index ae6d243..4e2f938 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -7,8 +7,10 @@ import six
 from openformats.strings import OpenString
 from openformats.transcribers import Transcriber
 
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..utils.xml import DumbXml
+from ..utils.xmlutils import reraise_syntax_as_parse_errors
 
 
 class BetaAndroidHandler(Handler):
@@ -29,12 +31,15 @@ class BetaAndroidHandler(Handler):
         r'(?:\.\d+)?(hh\|h\|l\|ll|j|z|t|L)?(?P<type>[diufFeEgGxXaAoscpn%])))'
     )
 
+    @reraise_syntax_as_parse_errors
     def parse(self, content, **kwargs):
         stringset = []
         if isinstance(content, six.binary_type):
             content = content.decode("utf-8")  # convert to unicode
 
-        resources_tag_position = content.index("<resources")
+        resources_tag_position = content.find("<resources")
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found in the file")
 
         self.transcriber = Transcriber(content[resources_tag_position:])
         source = self.transcriber.source
@@ -81,7 +86,8 @@ class BetaAndroidHandler(Handler):
         string = None
         if tag.inner.strip() != "":
             context = tag.attrs.get('product', "")
-            string = OpenString(tag.attrs['name'], tag.inner,
+            string = OpenString(self._get_attribute(tag, 'name'),
+                                tag.inner,
                                 context=context, order=self._order,
                                 developer_comment=comment)
             self._order += 1
@@ -118,7 +124,9 @@ class BetaAndroidHandler(Handler):
             string = None
             if item_tag.inner.strip() != "":
                 string = OpenString(
-                    "{}[{}]".format(string_array_tag.attrs['name'], index),
+                    "{}[{}]".format(
+                        self._get_attribute(string_array_tag, 'name'), index
+                    ),
                     item_tag.inner,
                     context=context,
                     order=self._order,
@@ -166,13 +174,21 @@ class BetaAndroidHandler(Handler):
 
             first_item_offset = first_item_offset or item_offset
 
-            rule = self.get_rule_number(item_tag.attrs['quantity'])
+            quantity = self._get_attribute(item_tag, 'quantity')
+            try:
+                rule = self.get_rule_number(quantity)
+            except RuleError as e:
+                raise ParseError(six.text_type(e))
             strings[rule] = item_tag.inner
-        last_item_tag, last_item_offset = item_tag, item_offset
+            last_item_tag, last_item_offset = item_tag, item_offset
+
+        if strings is not None and len(strings) == 0:
+            raise ParseError(u"No plurals found in <plurals> tag")
 
         if strings is not None:
             context = plurals_tag.attrs.get('product', "")
-            string = OpenString(plurals_tag.attrs['name'], strings,
+            string = OpenString(self._get_attribute(plurals_tag, 'name'),
+                                strings,
                                 pluralized=True,
                                 context=context, order=self._order,
                                 developer_comment=comment)
@@ -198,6 +214,15 @@ class BetaAndroidHandler(Handler):
 
         return string
 
+    @staticmethod
+    def _get_attribute(tag, attribute):
+        try:
+            return tag.attrs[attribute]
+        except KeyError:
+            raise ParseError(u"<{}> tag has no '{}' attribute".format(
+                tag.name, attribute
+            ))
+
     def _should_ignore(self, tag):
         """
         If the tag has a key: value elemement that matches FILTER_ATTRIBUTES
diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 89f0f3c..077d1b7 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -141,10 +141,11 @@ class DumbXml(object):
             self.inner_offset = 4
             self.name = self.COMMENT
             self.attrs = {}
-            self.inner = self.content[4:self.content.index("-->")]
+            closing_start, _ = self.find_closing(0)
+            self.inner = self.content[4:closing_start]
             return
 
-        opening_match = self.opening_tag_pat.search(content)
+        opening_match = self._find_opening(0)
         self.inner_offset = opening_match.end()
         self.name = opening_match.groupdict()['name']
         attrs = opening_match.groupdict()['attrs']
@@ -184,10 +185,12 @@ class DumbXml(object):
 
         if self.content[start:start + 4] == "<!--":
             # Special case for comment
-            closing_start = self.content[start:].index("-->")
-            return start + closing_start, start + closing_start + 3
+            closing_start = self.content.find("-->", start)
+            if closing_start == -1:
+                raise DumbXmlSyntaxError(u"Comment not closed")
+            return closing_start, closing_start + 3
 
-        opening_match = self.opening_tag_pat.search(self.content[start:])
+        opening_match = self._find_opening(start)
 
         if self.single_tag_pat.search(opening_match.group()):
             # Single tag, eg `<foo a="b" />`
@@ -215,6 +218,13 @@ class DumbXml(object):
 
             if count == 0:
                 return start + match.start(), start + match.end()
+        raise DumbXmlSyntaxError(u"Tag '{}' not closed".format(tag_name))
+
+    def _find_opening(self, start):
+        opening_match = self.opening_tag_pat.search(self.content[start:])
+        if opening_match is None:
+            raise DumbXmlSyntaxError(u"Opening tag not closed")
+        return opening_match
 
     def _is_within_comment(self, match):
         # Previous opening comment
-- 
2.43.0


From 3c3795348f767e09b21d117038e2ab3014af4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 69/89] fix: report XML files without their root element as
 ParseError

---
 openformats/formats/android.py     | 6 ++++--
 openformats/formats/stringsdict.py | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index a1cfbae..223a8e4 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -7,7 +7,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = source.find(self.PARSE_START)
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found in the file")
 
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index be75b45..e89c557 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -8,7 +8,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = source.find(self.PARSE_START)
+        if dict_tag_position == -1:
+            raise ParseError(u"No <dict> tag found in the file")
 
         parsed = NewDumbXml(source, dict_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
@@ -146,7 +148,7 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content, re.DOTALL)
+                                   value_tag.content or u"", re.DOTALL)
                 if matches is not None and self._has_strings(
                     dict_tag, value_tag, matches.group("variable")
                 ):
-- 
2.43.0


From b50fe049d5b1b47558d7316951a4499e9d829c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 70/89] fix: report PO plural forms without an index as
 ParseError

---
 openformats/formats/po.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 17a8d54..cc228e8 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -88,9 +88,18 @@ class PoHandler(Handler):
             string_data.update(self._get_metadata(entry))
 
             if pluralized:
-                msgstrs = {
-                    int(key): value for key, value in entry.msgstr_plural.items()
-                }
+                try:
+                    msgstrs = {
+                        int(index): value
+                        for index, value in entry.msgstr_plural.items()
+                    }
+                except ValueError:
+                    raise ParseError(
+                        (
+                            "Found an invalid plural form on the entry with msgid "
+                            "'{}' and msgid_plural '{}'"
+                        ).format(entry.msgid, entry.msgid_plural)
+                    )
             else:
                 msgstrs = {5: entry.msgstr}
 
-- 
2.43.0


From 519939b5c06958a0621492a4e0a590357b6d8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 71/89] fix: YAML keys that are not text crashed the parser

---
 openformats/formats/yaml/utils.py | 4 +++-
 openformats/formats/yaml/yaml.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 9527d29..b674622 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -253,7 +253,9 @@ class TxYamlLoader(yaml.SafeLoader):
 
         if len(duplicates):
             duplicates_list = list(duplicates)
-            error_duplicate_keys = ', '.join(key for key in duplicates_list)
+            error_duplicate_keys = ', '.join(
+                six.text_type(key) for key in duplicates_list
+            )
             raise ParseError(
                 "Duplicate keys found ({})".format(error_duplicate_keys)
             )
diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index d9842c2..346f8f2 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -217,7 +217,7 @@ class YamlHandler(Handler):
         Returns:
             A string similar to parent_key with key appended to it.
         """
-        if not isinstance(key, (six.binary_type, six.text_type)):
+        if not isinstance(key, six.text_type):
             # Int keys are stored in < and > around it, so it can be reverted
             # on int again on compiling.
             key = u'<{}>'.format(key)
-- 
2.43.0


From 68a0790d69fc71126b493b69e59de102bb55d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 72/89] fix: Markdown v2 header keys that are numbers in quotes
 are not Markdown strings

---
 openformats/formats/github_markdown_v2.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 9006040..a2dd4a8 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -22,6 +22,22 @@ from ..utils.compilers import OrderedCompilerMixin
 from ..utils.newlines import find_newline_type, force_newline_type
 
 
+class YamlHeaderHandler(YamlHandler):
+    """ Parses the YAML header of Markdown files. """
+
+    def _get_key_for_node(self, key, parent_key):
+        # Numbers are the keys of the strings of the Markdown part
+        if parent_key == '' and isinstance(key, six.text_type):
+            try:
+                int(key)
+            except ValueError:
+                pass
+            else:
+                key = '"{}"'.format(key)
+        return super(YamlHeaderHandler, self)._get_key_for_node(key,
+                                                                parent_key)
+
+
 class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     name = "Github_Markdown_v2"
     extension = "md"
@@ -108,7 +124,7 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             yaml_header_content = ''.join(yml_header.group(1, 2))
             seperator = yml_header.group(3)
             md_content = content[len(yaml_header_content + seperator):]
-            yaml_template, yaml_stringset = YamlHandler().parse(
+            yaml_template, yaml_stringset = YamlHeaderHandler().parse(
                 yaml_header_content
             )
             for openstring in yaml_stringset:
-- 
2.43.0


From 1adfada6e940c1eb45c3c269fc8b6254d1aac6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 73/89] fix: escape all kinds of newlines in Markdown v2 header
 values

---
 openformats/formats/github_markdown_v2.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index a2dd4a8..ac55dbf 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -47,6 +47,14 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
     DOUBLE_QUOTES = '"'
     SINGLE_QUOTE = u"'"
     NEWLINE = '\n'
+    # What YAML takes as a newline, with its escape sequences
+    NEWLINES = {
+        NEWLINE: '\\n',
+        '\r': '\\r',
+        '\x85': '\\N',
+        '\u2028': '\\L',
+        '\u2029': '\\P',
+    }
     COLON = ':'
     ASTERISK = '*'
     AMPERSAND = '&'
@@ -325,13 +333,16 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
         if should_wrap:
             is_block = openstring.flags and openstring.flags[-1] in '|>'
-            has_newline = self.NEWLINE in openstring.string and not is_block
+            has_newline = not is_block and any(
+                newline in openstring.string for newline in self.NEWLINES
+            )
             if has_newline:
                 # Only double quotes can hold newlines
                 quote_char = self.DOUBLE_QUOTES
             string = self._wrap_in_quotes(openstring.string, quote_char)
             if has_newline:
-                string = string.replace(self.NEWLINE, self.BACKSLASH + 'n')
+                for newline, escaped in six.iteritems(self.NEWLINES):
+                    string = string.replace(newline, escaped)
         else:
             string = openstring.string
 
-- 
2.43.0


From b6425da2a6bc2abccc3ea2ade150597482497291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 74/89] fix: read and write the parts of Office files as UTF-8
 in every locale

---
 openformats/formats/docx.py                   | 10 +++++-----
 openformats/formats/office_open_xml/parser.py |  2 +-
 openformats/formats/pptx.py                   |  4 ++--
 openformats/formats/xlsx_unstructured.py      |  8 ++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index f065d5c..becdf4b 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -100,7 +100,7 @@ class DocxFile(object):
         os.remove(docx_path)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
-        with io.open(base_rels_path, 'r') as f:
+        with io.open(base_rels_path, 'r', encoding='utf-8') as f:
             base_rels = f.read()
 
         if base_rels.startswith("\ufeff"):
@@ -127,7 +127,7 @@ class DocxFile(object):
 
     def get_document(self):
         if self.__document is None:
-            with io.open(self.__document_path, 'r') as f:
+            with io.open(self.__document_path, 'r', encoding='utf-8') as f:
                 self.__document = f.read()
 
             if self.__document.startswith("\ufeff"):
@@ -139,12 +139,12 @@ class DocxFile(object):
     def set_document(self, document):
         self.__document = document
 
-        with io.open(self.__document_path, 'w') as f:
+        with io.open(self.__document_path, 'w', encoding='utf-8') as f:
             f.write(document)
 
     def get_document_rels(self):
         if self.__document_rels is None:
-            with io.open(self.__document_rels_path, 'r') as f:
+            with io.open(self.__document_rels_path, 'r', encoding='utf-8') as f:
                 self.__document_rels = f.read()
 
             if self.__document_rels.startswith("\ufeff"):
@@ -158,7 +158,7 @@ class DocxFile(object):
     def set_document_rels(self, document_rels):
         self.__document_rels = document_rels
 
-        with io.open(self.__document_rels_path, 'w') as f:
+        with io.open(self.__document_rels_path, 'w', encoding='utf-8') as f:
             f.write(document_rels)
 
     def compress(self):
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index ce8c8f4..6f2d706 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -11,7 +11,7 @@ from collections import defaultdict
 
 def read_xml(path):
     """ Read an XML file without its BOM, which BeautifulSoup can't parse. """
-    with io.open(path, 'r') as f:
+    with io.open(path, 'r', encoding='utf-8') as f:
         content = f.read()
     return content[1:] if content.startswith(u"\ufeff") else content
 
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 890c176..94b0369 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -183,7 +183,7 @@ class PptxFile(object):
     def set_slide(self, slide, content):
         self.__slides[slide]['slide']['content'] = content
 
-        with io.open(self.__slides[slide]['slide']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['slide']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def get_slide_rels(self, slide):
@@ -197,7 +197,7 @@ class PptxFile(object):
     def set_slide_rels(self, slide, content):
         self.__slides[slide]['rels']['content'] = content
 
-        with io.open(self.__slides[slide]['rels']['path'], 'w') as f:
+        with io.open(self.__slides[slide]['rels']['path'], 'w', encoding='utf-8') as f:
             f.write(content)
 
     def compress(self):
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index ff84abd..806f34d 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -155,7 +155,7 @@ class XlsxFile(object):
         return read_xml(self.get_workbook_path())
 
     def set_workbook_content(self, content):
-        with open(self.get_workbook_path(), "w") as f:
+        with io.open(self.get_workbook_path(), "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_workbook_targets(self):
@@ -177,7 +177,7 @@ class XlsxFile(object):
         return read_xml(self.get_sheet(sheet)["path"])
 
     def set_sheet_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["path"], "w") as f:
+        with io.open(self.get_sheet(sheet)["path"], "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def has_rels(self, sheet):
@@ -187,7 +187,7 @@ class XlsxFile(object):
         return read_xml(self.get_sheet(sheet)["rels_path"])
 
     def set_sheet_rels_content(self, sheet, content):
-        with open(self.get_sheet(sheet)["rels_path"], "w") as f:
+        with io.open(self.get_sheet(sheet)["rels_path"], "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def get_shared_strings_content(self):
@@ -198,7 +198,7 @@ class XlsxFile(object):
     def set_shared_strings_content(self, content):
         if self.get_shared_strings_path() is None:
             return
-        with open(self.get_shared_strings_path(), "w") as f:
+        with io.open(self.get_shared_strings_path(), "w", encoding="utf-8") as f:
             f.write(content.encode(formatter=UnsortedAttributes()).decode())
 
     def delete(self):
-- 
2.43.0


From b0e6a25e4bf4ec85575c56822239aa8164afc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 75/89] fix: Office files can't make the handlers read or write
 files outside their folder

---
 openformats/formats/docx.py                   | 36 ++++++------------
 openformats/formats/office_open_xml/parser.py | 25 +++++++++++-
 openformats/formats/pptx.py                   | 38 +++++++------------
 openformats/formats/xlsx_unstructured.py      | 38 +++++++------------
 4 files changed, 62 insertions(+), 75 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index becdf4b..5470def 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -9,7 +9,8 @@ from zipfile import ZIP_DEFLATED, ZipFile
 import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
+from openformats.formats.office_open_xml.parser import (OfficeOpenXmlHandler,
+                                                        get_part_path, unpack)
 
 
 class DocxFile(object):
@@ -88,16 +89,7 @@ class DocxFile(object):
         )
         os.mkdir(self.__tmp_folder)
 
-        docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'in')
-        with io.open(docx_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(docx_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        self.__filelist = z.namelist()
-
-        os.remove(docx_path)
+        self.__filelist = unpack(content, self.__tmp_folder)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
         with io.open(base_rels_path, 'r', encoding='utf-8') as f:
@@ -114,14 +106,15 @@ class DocxFile(object):
             if relationship.attrs.get('Type').endswith('/officeDocument')
         )).attrs['Target']
 
-        self.__document_path = '{}/{}'.format(
+        self.__document_path = get_part_path(
             self.__tmp_folder, document_relative_path
         )
         self.__document = None
 
         document_folder, document_file = os.path.split(document_relative_path)
-        self.__document_rels_path = '{}/{}/_rels/{}.rels'.format(
-            self.__tmp_folder, document_folder, document_file
+        self.__document_rels_path = get_part_path(
+            self.__tmp_folder,
+            '{}/_rels/{}.rels'.format(document_folder, document_file)
         )
         self.__document_rels = None
 
@@ -162,18 +155,13 @@ class DocxFile(object):
             f.write(document_rels)
 
     def compress(self):
-        docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'out')
+        result = io.BytesIO()
 
-        with ZipFile(docx_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+        with ZipFile(result, "w", compression=ZIP_DEFLATED) as z:
+            for filename, path in self.__filelist:
+                z.write(path, filename)
 
-        with io.open(docx_path, 'rb') as f:
-            result = f.read()
-
-        os.remove(docx_path)
-
-        return result
+        return result.getvalue()
 
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 6f2d706..9158138 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,9 +1,11 @@
 import io
+import os
 import re
 import six
 from copy import copy
+from zipfile import ZipFile
 
-from openformats.exceptions import MissingParentError
+from openformats.exceptions import MissingParentError, ParseError
 from openformats.strings import OpenString
 from bs4 import BeautifulSoup
 from collections import defaultdict
@@ -16,6 +18,27 @@ def read_xml(path):
     return content[1:] if content.startswith(u"\ufeff") else content
 
 
+def unpack(content, folder):
+    """ Unpack an archive in a folder.
+
+    Returns the names of its members with the paths they were unpacked to: the
+    names may lead out of the folder, the paths don't.
+    """
+    with ZipFile(io.BytesIO(content), 'r') as z:
+        return [(name, z.extract(name, folder)) for name in z.namelist()]
+
+
+def get_part_path(folder, name):
+    """ Find the path of a part of an archive that was unpacked in a folder.
+
+    Raises a ParseError if the name of the part leads out of the folder.
+    """
+    path = os.path.normpath(u'{}/{}'.format(folder, name))
+    if not path.startswith(u'{}/'.format(os.path.normpath(folder))):
+        raise ParseError(u"Invalid path of a part: '{}'".format(name))
+    return path
+
+
 class OfficeOpenXmlHandler(object):
     @classmethod
     def get_hyperlink_url(cls, element, document_rels):
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 94b0369..a875c75 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -11,7 +11,9 @@ import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
 from openformats.exceptions import MissingParentError
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler, read_xml
+from openformats.formats.office_open_xml.parser import (OfficeOpenXmlHandler,
+                                                        get_part_path,
+                                                        read_xml, unpack)
 from openformats.strings import OpenString
 from collections import defaultdict
 
@@ -93,16 +95,7 @@ class PptxFile(object):
         )
         os.mkdir(self.__tmp_folder)
 
-        pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'in')
-        with io.open(pptx_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(pptx_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        self.__filelist = z.namelist()
-
-        os.remove(pptx_path)
+        self.__filelist = unpack(content, self.__tmp_folder)
 
         content_types_path = '{}/{}'.format(
             self.__tmp_folder, '[Content_Types].xml'
@@ -130,12 +123,12 @@ class PptxFile(object):
             self.__slides[slide_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, slide_path),
+                    'path': get_part_path(self.__tmp_folder, slide_path),
                     'notes':  False
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(slide_path))  # noqa
+                    'path': get_part_path(self.__tmp_folder, self.get_rels_path(slide_path))  # noqa
                 }
             }
 
@@ -143,12 +136,12 @@ class PptxFile(object):
             self.__slides[notes_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, notes_path),
+                    'path': get_part_path(self.__tmp_folder, notes_path),
                     'notes':  True
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(notes_path))  # noqa
+                    'path': get_part_path(self.__tmp_folder, self.get_rels_path(notes_path))  # noqa
                 }
             }
 
@@ -201,18 +194,13 @@ class PptxFile(object):
             f.write(content)
 
     def compress(self):
-        pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'out')
+        result = io.BytesIO()
 
-        with ZipFile(pptx_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+        with ZipFile(result, "w", compression=ZIP_DEFLATED) as z:
+            for filename, path in self.__filelist:
+                z.write(path, filename)
 
-        with io.open(pptx_path, 'rb') as f:
-            result = f.read()
-
-        os.remove(pptx_path)
-
-        return result
+        return result.getvalue()
 
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 806f34d..a74a1ec 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -14,7 +14,9 @@ from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
 
-from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler, read_xml
+from openformats.formats.office_open_xml.parser import (OfficeOpenXmlHandler,
+                                                        get_part_path,
+                                                        read_xml, unpack)
 from openformats.handlers import Handler
 from openformats.strings import OpenString
 
@@ -55,17 +57,7 @@ class XlsxFile(object):
         self.__tmp_folder = "{}/{}".format(tempfile.gettempdir(), uuid4().hex)
         os.mkdir(self.__tmp_folder)
 
-        input_path = self.__tmp_folder + "in.xlsx"
-
-        with io.open(input_path, 'wb') as f:
-            f.write(content)
-
-        with ZipFile(input_path, 'r') as z:
-            z.extractall(self.__tmp_folder)
-
-        os.remove(input_path)
-
-        self.__filelist = z.namelist()
+        self.__filelist = unpack(content, self.__tmp_folder)
 
         self._parse()
 
@@ -89,7 +81,7 @@ class XlsxFile(object):
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
         self._workbook_path_internal = workbook_path_internal
-        self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
+        self._workbook_path = get_part_path(self.__tmp_folder, workbook_path_internal)
 
         comment_paths_internal = {
             comment["PartName"]
@@ -98,7 +90,7 @@ class XlsxFile(object):
             )
         }
         self._comment_paths = {
-            "{}{}".format(self.__tmp_folder, comment_path)
+            get_part_path(self.__tmp_folder, comment_path)
             for comment_path in comment_paths_internal
         }
 
@@ -118,7 +110,7 @@ class XlsxFile(object):
         )
         self._sheets = {}
         for sheet_item in sheet_items_internal:
-            sheet_path = "{}{}".format(self.__tmp_folder, sheet_item["path"])
+            sheet_path = get_part_path(self.__tmp_folder, sheet_item["path"])
             sheet_rels_tmp_path = get_rels_path(sheet_path)
             self._sheets[sheet_item["path"]] = {
                 "path": sheet_path,
@@ -132,7 +124,7 @@ class XlsxFile(object):
         )
         self._shared_strings_path = None
         if shared_strings_item:
-            self._shared_strings_path = "{}{}".format(
+            self._shared_strings_path = get_part_path(
                 self.__tmp_folder, shared_strings_item["PartName"]
             )
 
@@ -205,16 +197,12 @@ class XlsxFile(object):
         shutil.rmtree(self.__tmp_folder)
 
     def compress(self):
-        output_path = self.__tmp_folder + "/out.xlsx"
-        with ZipFile(output_path, "w", compression=ZIP_DEFLATED) as z:
-            for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
-
-        with io.open(output_path, 'rb') as f:
-            result = f.read()
+        result = io.BytesIO()
+        with ZipFile(result, "w", compression=ZIP_DEFLATED) as z:
+            for filename, path in self.__filelist:
+                z.write(path, filename)
 
-        os.remove(output_path)
-        return result
+        return result.getvalue()
 
 
 def wrap(string, hyperlink=None):
-- 
2.43.0


From 089a6d31ce65cb5ce6d738ad5d8f01623eedc4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 76/89] fix: Office handlers left temporary folders behind when
 they failed

---
 openformats/formats/docx.py              | 23 ++++++++++++++++++----
 openformats/formats/pptx.py              | 23 ++++++++++++++++++----
 openformats/formats/xlsx_unstructured.py | 25 +++++++++++++++++-------
 3 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 5470def..6559746 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -88,7 +88,13 @@ class DocxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self._read(content)
+        except BaseException:
+            self.delete()
+            raise
 
+    def _read(self, content):
         self.__filelist = unpack(content, self.__tmp_folder)
 
         base_rels_path = '{}/{}'.format(self.__tmp_folder, '_rels/.rels')
@@ -166,6 +172,12 @@ class DocxFile(object):
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *args):
+        self.delete()
+
 
 class DocxHandler(Handler, OfficeOpenXmlHandler):
     PROCESSES_BINARY = True
@@ -273,8 +285,10 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         as `txid` attribute in order to be able to match when
         compilation takes place.
         """
-        docx = DocxFile(content)
+        with DocxFile(content) as docx:
+            return self._parse(docx)
 
+    def _parse(self, docx):
         soup = BeautifulSoup(docx.get_document(), 'xml')
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
@@ -291,14 +305,16 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document(six.text_type(soup))
 
         template = docx.compress()
-        docx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
         stringset = {
             string.string_hash: string for string in stringset
         }
-        docx = DocxFile(template)
+        with DocxFile(template) as docx:
+            return self._compile(docx, stringset, **kwargs)
+
+    def _compile(self, docx, stringset, **kwargs):
         soup = BeautifulSoup(docx.get_document(), 'xml')
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
         is_rtl = kwargs.get('is_rtl', False)
@@ -316,5 +332,4 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document_rels(six.text_type(rels_soup))
 
         result = docx.compress()
-        docx.delete()
         return result
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index a875c75..df1f4b6 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -94,7 +94,13 @@ class PptxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self._read(content)
+        except BaseException:
+            self.delete()
+            raise
 
+    def _read(self, content):
         self.__filelist = unpack(content, self.__tmp_folder)
 
         content_types_path = '{}/{}'.format(
@@ -205,6 +211,12 @@ class PptxFile(object):
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *args):
+        self.delete()
+
     def _get_slide_number(self, slide):
         """Extract the slide number
 
@@ -331,8 +343,10 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         as `txid` attribute in order to be able to match when
         compilation takes place.
         """
-        pptx = PptxFile(content)
+        with PptxFile(content) as pptx:
+            return self._parse(pptx)
 
+    def _parse(self, pptx):
         stringset = []
         order = itertools.count()
 
@@ -355,14 +369,16 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide(slide, six.text_type(soup))
 
         template = pptx.compress()
-        pptx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
         stringset = {
             string.string_hash: string for string in stringset
         }
-        pptx = PptxFile(template)
+        with PptxFile(template) as pptx:
+            return self._compile(pptx, stringset, **kwargs)
+
+    def _compile(self, pptx, stringset, **kwargs):
         is_rtl = kwargs.get('is_rtl', False)
         for slide in pptx.get_slides():
             soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
@@ -378,7 +394,6 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide_rels(slide, six.text_type(rels_soup))
 
         result = pptx.compress()
-        pptx.delete()
         return result
 
 class PptxHandlerV2(PptxHandler):
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index a74a1ec..736e0a9 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -56,10 +56,13 @@ class XlsxFile(object):
     def __init__(self, content):
         self.__tmp_folder = "{}/{}".format(tempfile.gettempdir(), uuid4().hex)
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__filelist = unpack(content, self.__tmp_folder)
 
-        self.__filelist = unpack(content, self.__tmp_folder)
-
-        self._parse()
+            self._parse()
+        except BaseException:
+            self.delete()
+            raise
 
     def _parse(self):
         """
@@ -196,6 +199,12 @@ class XlsxFile(object):
     def delete(self):
         shutil.rmtree(self.__tmp_folder)
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *args):
+        self.delete()
+
     def compress(self):
         result = io.BytesIO()
         with ZipFile(result, "w", compression=ZIP_DEFLATED) as z:
@@ -254,8 +263,10 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         return sheet_names, names_by_path
 
     def parse(self, content, **kwargs):
-        xlsx = XlsxFile(content)
+        with XlsxFile(content) as xlsx:
+            return self._parse(xlsx)
 
+    def _parse(self, xlsx):
         order = itertools.count()
 
         sheet_names, names_by_path = self._extract_sheet_names(xlsx)
@@ -392,7 +403,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
         template = xlsx.compress()
 
-        xlsx.delete()
         return template, all_strings
 
     @staticmethod
@@ -447,8 +457,10 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         stringset = {
             string.string_hash: string for string in stringset
         }
-        xlsx = XlsxFile(template)
+        with XlsxFile(template) as xlsx:
+            return self._compile(xlsx, stringset, is_rtl)
 
+    def _compile(self, xlsx, stringset, is_rtl):
         shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
         shared_strings = shared_strings_soup.find_all("si")
 
@@ -595,6 +607,5 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 xlsx.set_sheet_rels_content(sheet, sheet_rels_soup)
 
         result = xlsx.compress()
-        xlsx.delete()
         return result
 
-- 
2.43.0


From 72a28c9196bcc8c5e436e634ac95e35aa2fdb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 77/89] fix: the content of a PO file is never taken for the
 name of a file

---
 openformats/formats/po.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index cc228e8..d822989 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -10,6 +10,14 @@ from ..handlers import Handler
 from ..strings import OpenString
 
 
+def read_po(content):
+    """ Read the content of a PO file.
+
+    polib takes the name of a file for that file: no name ends in a newline.
+    """
+    return polib.pofile(content + "\n")
+
+
 class PoHandler(Handler):
     """A handler class that parses and compiles `.po` and `.pot` files.
 
@@ -35,7 +43,7 @@ class PoHandler(Handler):
 
     def parse(self, source, is_source=False):
         try:
-            po = polib.pofile(source)
+            po = read_po(source)
         except Exception as e:
             raise ParseError("Error while validating PO file syntax: {}".format(e))
         existing_keys = set()
@@ -279,7 +287,7 @@ class PoHandler(Handler):
         if isinstance(template, polib.POFile):
             po = deepcopy(template)
         else:
-            po = polib.pofile(template)
+            po = read_po(template)
 
         for i, entry in enumerate(po):
             if next_string is not None:
@@ -310,7 +318,7 @@ class PoHandler(Handler):
         if isinstance(template, polib.POFile):
             po = deepcopy(template)
         else:
-            po = polib.pofile(template)
+            po = read_po(template)
 
         indexes_to_remove = []
         matched_count = 0
@@ -346,7 +354,7 @@ class PoHandler(Handler):
         if isinstance(template, polib.POFile):
             po = deepcopy(template)
         else:
-            po = polib.pofile(template)
+            po = read_po(template)
 
         for os in remaining:
             entry = self._make_added_entry(os)
-- 
2.43.0


From 851fdcfe444413672d34dd771e85239667b1cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 78/89] fix: file names with colons in occurrences of added PO
 strings

---
 openformats/formats/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index d822989..00f1105 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -440,7 +440,7 @@ class PoHandler(Handler):
             if isinstance(os.occurrences, six.text_type):
                 for occ in os.occurrences.split(", "):
                     if ":" in occ:
-                        filename, lineno = occ.split(":", 1)
+                        filename, lineno = occ.rsplit(":", 1)
                         occs.append((filename, lineno))
             else:
                 occs = os.occurrences
-- 
2.43.0


From 6a84f5f0845c99244505e528fdb5fd55519e2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 79/89] fix: the InDesign handler added the strings of a file
 to those of the files before

---
 openformats/formats/indesign.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index c43f0ba..a928bf0 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -53,6 +53,9 @@ class InDesignHandler(Handler):
             * Return the (template, stringset) tuple
         """
 
+        self.order = count()
+        self.stringset = []
+
         idml = UCF(io.BytesIO(content))
         ordered_stories = self._get_ordered_stories(idml)
 
-- 
2.43.0


From 159b834bb2d58bd1fff64204ae539111cd2fcbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 80/89] fix: the order of InDesign stories that are not in the
 story list changed from one process to the next

---
 openformats/formats/indesign.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index a928bf0..f41c9f1 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -97,11 +97,11 @@ class InDesignHandler(Handler):
 
         # In case there are stories that is not referenced in designmap.xml,
         # append them at the end of the list
-        all_stories = {
+        all_stories = [
             k for k in six.iterkeys(idml)
             if k.startswith('Stories') or k == BACKING_STORY
-        }
-        story_keys.extend(all_stories - set(story_keys))
+        ]
+        story_keys.extend([k for k in all_stories if k not in story_keys])
         return story_keys
 
     def _can_skip_content(self, string):
-- 
2.43.0


From d0a544cbc979aa51c34325850f34b10de126c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 81/89] fix: YAML keys below an empty key were those of the
 level above

---
 openformats/formats/github_markdown_v2.py | 10 ++++++----
 openformats/formats/yaml/yaml.py          | 13 +++++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index ac55dbf..ec6ee58 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -25,17 +25,19 @@ from ..utils.newlines import find_newline_type, force_newline_type
 class YamlHeaderHandler(YamlHandler):
     """ Parses the YAML header of Markdown files. """
 
-    def _get_key_for_node(self, key, parent_key):
+    def _get_key_for_node(self, key, parent_key, nested=False):
         # Numbers are the keys of the strings of the Markdown part
-        if parent_key == '' and isinstance(key, six.text_type):
+        if (parent_key == '' and not nested and
+                isinstance(key, six.text_type)):
             try:
                 int(key)
             except ValueError:
                 pass
             else:
                 key = '"{}"'.format(key)
-        return super(YamlHeaderHandler, self)._get_key_for_node(key,
-                                                                parent_key)
+        return super(YamlHeaderHandler, self)._get_key_for_node(
+            key, parent_key, nested=nested
+        )
 
 
 class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 346f8f2..6e4e787 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -204,7 +204,7 @@ class YamlHandler(Handler):
         """
         raise NotImplementedError
 
-    def _get_key_for_node(self, key, parent_key):
+    def _get_key_for_node(self, key, parent_key, nested=False):
         """
         Get key string for the current node.
 
@@ -213,6 +213,7 @@ class YamlHandler(Handler):
             parent_key: A string, containing all the keys
                 (traversed before reaching the current key node)
                 separated by '.'
+            nested: Whether there is a parent even if `parent_key` is empty
 
         Returns:
             A string similar to parent_key with key appended to it.
@@ -223,7 +224,7 @@ class YamlHandler(Handler):
             key = u'<{}>'.format(key)
         if '.' in key:
             key = self.escape_dots(key)
-        if parent_key == '':
+        if parent_key == '' and not nested:
             parent_key += key
         else:
             parent_key += '.' + key
@@ -258,7 +259,9 @@ class YamlHandler(Handler):
 
         if isinstance(yaml_data, dict):
             for key, node in six.iteritems(yaml_data):
-                node_key = self._get_key_for_node(key, parent_key)
+                node_key = self._get_key_for_node(
+                    key, parent_key, nested=bool(parent_style)
+                )
                 # Copy style for each node to avoid getting affected from the
                 # previous loops
                 node_style = copy.copy(parent_style)
@@ -289,7 +292,9 @@ class YamlHandler(Handler):
             # using the position (index) of it as parent key using
             # brackets around it. I.e.: 'foo.[0].bar'.
             for i, node in enumerate(yaml_data):
-                node_key = self._get_key_for_node('[%s]' % (i), parent_key)
+                node_key = self._get_key_for_node(
+                    '[%s]' % (i), parent_key, nested=bool(parent_style)
+                )
                 # Copy style for each node to avoid getting affected from the
                 # previous loops
                 node_style = copy.copy(parent_style)
-- 
2.43.0


From 3b7a5b7ef3b1e049835d2ba13fa802ecb6a0cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 82/89] fix: Android duplicates after a string of another kind
 were accepted

---
 openformats/formats/android.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 223a8e4..551115e 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -78,6 +78,7 @@ class AndroidHandler(Handler):
         )
         stringset = []
         self.existing_hashes = {}
+        self.existing_contexts = set()
         for child in children_iterator:
             strings = self._handle_child(child)
             if strings is not None:
@@ -252,6 +253,7 @@ class AndroidHandler(Handler):
                 'child_tag': 'item'
             }
         ):
+            context = product
             if (name, product) in self.existing_hashes:
                 if child.tag in self.existing_hashes[(name, product)]:
                     format_dict = {
@@ -277,12 +279,16 @@ class AndroidHandler(Handler):
                         context=format_dict
                     )
                 else:
-                    product += child.tag
+                    context += child.tag
+            while (name, context) in self.existing_contexts:
+                # Taken by a string with this `product`
+                context += child.tag
+            self.existing_contexts.add((name, context))
             # Create OpenString
             string = OpenString(
                 name,
                 text,
-                context=product,
+                context=context,
                 order=next(self.order_counter),
                 developer_comment=comment,
                 pluralized=pluralized,
-- 
2.43.0


From 3b8caadd7f471e5822035e6634aa41bc21b9904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 83/89] fix: VTT cues with the same timings shared their
 identity

---
 openformats/formats/vtt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/vtt.py b/openformats/formats/vtt.py
index b5d0ddf..b05f077 100644
--- a/openformats/formats/vtt.py
+++ b/openformats/formats/vtt.py
@@ -29,6 +29,7 @@ class VttHandler(Handler):
         source = self.transcriber.source
         stringset = []
         self._order = count()
+        self._timings = {}
         for start, subtitle_section in self._generate_split_subtitles(source):
             self.transcriber.copy_until(start)
             offset, string = self._parse_section(start, subtitle_section)
@@ -107,9 +108,12 @@ class VttHandler(Handler):
             # Do not include an empty subtitle in the stringset
             return None, None
 
+        # Cues may be shown at the same time as others
+        number = self._timings[timings] = self._timings.get(timings, 0) + 1
         string = OpenString(
             timings,
             string_to_translate,
+            context=f"{number}" if number > 1 else "",
             occurrences=f"{start},{end}",
             order=next(self._order),
         )
-- 
2.43.0


From 52314f939d4b6d04ca04db19aa1f8f306631b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 84/89] fix: keep tags of block scalars when generating YAML
 without a template

---
 openformats/formats/yaml/yaml_representers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/yaml_representers.py b/openformats/formats/yaml/yaml_representers.py
index 857d1c6..bc1273b 100644
--- a/openformats/formats/yaml/yaml_representers.py
+++ b/openformats/formats/yaml/yaml_representers.py
@@ -19,11 +19,13 @@ def unicode_representer(dumper, data):
 
 
 def folded_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='>')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='>')
 
 
 def literal_unicode_representer(dumper, data):
-    return dumper.represent_scalar(YAML_STRING_ID, data, style='|')
+    tag = getattr(data, 'tag', YAML_STRING_ID)
+    return dumper.represent_scalar(tag, data, style='|')
 
 
 def double_quoted_unicode_representer(dumper, data):
-- 
2.43.0


From 698628fe71cdb6f3778eb26c1a9e1d78a6ccbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 85/89] fix: generate YAML list items when earlier items are
 missing

---
 openformats/formats/yaml/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index b674622..00eeeda 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -339,6 +339,8 @@ class YamlGenerator(object):
 
     def __init__(self, handler):
         self.handler = handler
+        # The collections inside lists generated so far, by their full key
+        self.list_items = {}
 
     def generate_yaml_dict(self, stringset):
         """
@@ -485,14 +487,17 @@ class YamlGenerator(object):
                         yaml_dict[key] = self._create_dict_node(styles[i])
                     yaml_dict = yaml_dict[key]
             else:
-                if index < len(yaml_dict):
-                    yaml_dict = yaml_dict[index]
-                else:
+                # The index may be greater than the current length of the list
+                # if some of the previous items are not being generated
+                path = tuple(keys[:i+1])
+                if path not in self.list_items:
                     if next_is_list:
-                        yaml_dict.append(self._create_list_node(styles[i]))
+                        item = self._create_list_node(styles[i])
                     else:
-                        yaml_dict.append(self._create_dict_node(styles[i]))
-                    yaml_dict = yaml_dict[index]
+                        item = self._create_dict_node(styles[i])
+                    yaml_dict.append(item)
+                    self.list_items[path] = item
+                yaml_dict = self.list_items[path]
             if is_last:
                 if next_is_list:
                     yaml_dict.append(self._get_styled_string(entry,
-- 
2.43.0


From 5f822982647a229bc5b59521b517a405db2aed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 86/89] fix: whole number keys of nested mappings in generated
 YAML

---
 openformats/formats/yaml/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 00eeeda..0480656 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -470,9 +470,12 @@ class YamlGenerator(object):
             is_last = i == (len(keys) - 2)
             next_key = keys[i+1]
 
-            key = self._parse_int_key(key)
             key, is_list = self._parse_list_index_key(key)
+            if not is_list:
+                key = self._parse_int_key(key)
             next_key, next_is_list = self._parse_list_index_key(next_key)
+            if not next_is_list:
+                next_key = self._parse_int_key(next_key)
 
             if is_list:
                 index = key
-- 
2.43.0


From da680c680a0440b58ff8140df394cc1651cbff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 87/89] fix: escape unusual line breaks in generated YAML

---
 openformats/formats/yaml/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 0480656..fca7e3a 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -388,6 +388,9 @@ class YamlGenerator(object):
             or double_quoted_unicode.
         """
         obj = translation_string
+        if obj and re.search(u'[\x85\u2028\u2029]', obj):
+            # Unusual line breaks can only be escaped
+            style = '"'
         if style == '|':
             obj = literal_unicode(obj, tag=tag)
         elif style == '>':
-- 
2.43.0


From 4143738cdf8dca20dd27e4d5ab3a41901f229d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 88/89] fix: generate YAML files whose root is a list as lists

---
 openformats/formats/yaml/utils.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index fca7e3a..1d8d219 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -350,9 +350,11 @@ class YamlGenerator(object):
             stringset: The OpenString stringset of the resource
 
         Returns:
-            An YAML serializable OrderedDict instance.
+            An YAML serializable OrderedDict instance or, if the root of the
+            resource is a list, a BlockList instance.
         """
-        yaml_dict = OrderedDict()
+        stringset = list(stringset)
+        yaml_dict = self._create_root_node(stringset)
         for se in stringset:
             keys = se.key.split('.')
             flags = se.flags.split(':')
@@ -464,9 +466,11 @@ class YamlGenerator(object):
         yaml_dict = parent_dict
         entry = translation_string
         if len(keys) == 1:
-            key = self._parse_int_key(keys[0])
-            yaml_dict[key] = self._get_styled_string(entry, styles[-1],
-                                                     tag=tag)
+            styled_string = self._get_styled_string(entry, styles[-1], tag=tag)
+            if isinstance(yaml_dict, list):
+                yaml_dict.append(styled_string)
+            else:
+                yaml_dict[self._parse_int_key(keys[0])] = styled_string
             return
 
         for i, key in enumerate(keys[:-1]):
@@ -512,6 +516,14 @@ class YamlGenerator(object):
                     yaml_dict[next_key] = self._get_styled_string(entry,
                                                                   styles[-1])
 
+    def _create_root_node(self, stringset):
+        """ The root is a list only if all of the keys start with an index. """
+        is_list = [self._parse_list_index_key(se.key.split('.')[0])[1]
+                   for se in stringset]
+        if is_list and all(is_list):
+            return self._create_list_node('block')
+        return OrderedDict()
+
     def _create_list_node(self, style):
         if style == 'block':
             return BlockList()
-- 
2.43.0


From 6c8203888f648ba8619139ee33f3c78ff8674cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 89/89] fix: saving work in the testbed

---
 testbed/main/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/testbed/main/views.py b/testbed/main/views.py
index 41b1fc6..62115ea 100644
--- a/testbed/main/views.py
+++ b/testbed/main/views.py
@@ -167,6 +167,7 @@ class ApiView(HandlerMixin, View):
 class SaveView(CreateView):
     http_method_names = ['post']
     model = Payload
+    fields = ['payload']
 
     def form_valid(self, form):
         try:
-- 
2.43.0

