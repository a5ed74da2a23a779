From 64c1f0836d53aa294c35d42aa4a12a909a8c927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 01/48] fix: parse each clause of a symbolic mode on its own
 and reject trailing text

---
 libff/type.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..e4d65d8 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -285,7 +285,7 @@ class Mode(Type):
     sort_none = 0
     count = Count.COUNT
 
-    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)$")
+    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)")
 
     MODE_ALL = stat.S_ISUID | stat.S_ISGID | stat.S_ISVTX | \
                stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO
@@ -295,12 +295,12 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            affected = 0
             val = 0
 
-            match = cls.regex.match(part)
+            match = cls.regex.fullmatch(part)
             if match is None:
                 raise ValueError(f"unable to parse {value!r}")
 
@@ -346,12 +346,13 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
+            val &= affected
             if operator in "+=":
                 result |= val
             elif operator == "-":
                 result &= ~val
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From e3756b7eeb5c29b5ea45aeaf38d145226a0e97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 02/48] fix: reject durations with a part that has no known
 unit

---
 libff/convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..83ac9a4 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -102,11 +102,11 @@ def parse_duration(string):
     duration = 0
     end = 0
     for match in regex_duration.finditer(string):
-        if match.start(0) != end:
+        count, unit = match.groups()
+        if match.start() != end or unit is None:
             raise ValueError(f"unable to parse {string!r}")
-        end = match.end(1) + 1
+        end = match.end()
 
-        count, unit = match.groups()
         count = int(count)
 
         if unit == "s":
@@ -124,7 +124,7 @@ def parse_duration(string):
         elif unit == "y":
             duration += count * 31536000 # 365 days
 
-    if end != len(string):
+    if not string or end != len(string):
         raise ValueError(f"unable to parse {string!r}")
 
     return duration
-- 
2.43.0


From 245361694a5c5226ab6460704b770fb2944d088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 03/48] fix: reject sizes with a trailing newline

---
 libff/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 83ac9a4..bfe10b6 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -56,7 +56,7 @@ def parse_size(string):
     """
     string = string.upper()
 
-    match = regex.match(string)
+    match = regex.fullmatch(string)
     try:
         number_in_bytes, number, unit = match.groups()
     except AttributeError:
-- 
2.43.0


From a632b57a5267df5575e2726677a2cd95ee040cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 04/48] fix: print sizes beyond the largest unit with the right
 number

---
 libff/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index bfe10b6..e150e7e 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -31,7 +31,7 @@ def format_size(number, base=1024):
         return str(number)
 
     for unit in UNITS:
-        if number < base:
+        if number < base or unit == UNITS[-1]:
             break
         number /= base
         number = round(number, 1)
-- 
2.43.0


From b0ff538998748b0b5c95a645f4a98adbb0a7cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 05/48] fix: compute sizes with a fraction exactly

---
 libff/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index e150e7e..ff6be73 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -21,6 +21,7 @@
 import re
 import time
 import datetime
+import fractions
 
 UNITS = ("", "K", "M", "G", "T", "P", "E", "Z", "Y")
 
@@ -71,7 +72,7 @@ def parse_size(string):
 
         exp = UNITS.index(prefix)
         base = 1000 if suffix == "B" else 1024
-        return int(float(number) * base ** exp)
+        return int(fractions.Fraction(number) * base ** exp)
     else:
         return int(number_in_bytes)
 
-- 
2.43.0


From e105d007aca9d91e96a9b79359e2a226cb5db368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 06/48] fix: reject --limit values with a trailing newline

---
 libff/argparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..dbe12c4 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -110,7 +110,7 @@ regex_slice = re.compile(r"^(?:(?P<start>\d*|-?\d+):(?P<stop>\d*|-?\d+)"\
 def type_slice(string):
     """Parse python-like slice and pagesize,page notation.
     """
-    match = regex_slice.match(string)
+    match = regex_slice.fullmatch(string)
     if match is None:
         raise ArgumentError(f"invalid slice {string!r}")
 
-- 
2.43.0


From b0ebe58284118d3f686886fb397f478b84d08a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 07/48] fix: a mountpoint contains its own directory

---
 libff/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..b3040cf 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -54,8 +54,10 @@ class Mountpoints:
     def get(self, path):
         """Get the mountpoint, device name and filesystem type for path.
         """
+        # Add a separator, so that a mountpoint contains its own directory, too.
+        path = path.rstrip(os.sep) + os.sep
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if path.startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From fdaf12da2020cc4cd9aa63be5d24493788235797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 08/48] fix: decode the escaped characters in /proc/mounts

---
 libff/entry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index b3040cf..6d95be7 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import grp
 import pwd
 import stat
@@ -40,16 +41,22 @@ class Mountpoints:
     def __init__(self):
         self.entries = []
         try:
-            # pylint:disable=unspecified-encoding
-            with open("/proc/mounts") as lines:
+            with open("/proc/mounts", encoding="utf-8", errors="surrogateescape") as lines:
                 for line in lines:
-                    devname, mpath, fstype, _ = line.split(None, 3)
+                    devname, mpath, fstype, _ = [self.unescape(field) for field in
+                            line.split(None, 3)]
                     self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
         except OSError:
             pass
         else:
             self.entries.sort(reverse=True)
 
+    @staticmethod
+    def unescape(field):
+        """Decode the octal escapes for whitespace and backslashes, cf. getmntent(3).
+        """
+        return re.sub(r"\\([0-7]{3})", lambda match: chr(int(match.group(1), 8)), field)
+
     @lru_cache(maxsize=512)
     def get(self, path):
         """Get the mountpoint, device name and filesystem type for path.
-- 
2.43.0


From 924aab5e3850fd87fcc08f79e25615001badf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/48] fix: the last filesystem mounted on a directory is the
 visible one

---
 libff/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 6d95be7..46c8348 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -49,7 +49,9 @@ class Mountpoints:
         except OSError:
             pass
         else:
-            self.entries.sort(reverse=True)
+            # The last mount on the same directory hides the others.
+            self.entries.reverse()
+            self.entries.sort(key=lambda entry: entry[0], reverse=True)
 
     @staticmethod
     def unescape(field):
-- 
2.43.0


From 449131c3b66c667ea7a116502ef37557e1817a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 10/48] fix: fields in /proc/mounts are separated by blanks
 only

---
 libff/entry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 46c8348..1ca909d 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -41,10 +41,11 @@ class Mountpoints:
     def __init__(self):
         self.entries = []
         try:
-            with open("/proc/mounts", encoding="utf-8", errors="surrogateescape") as lines:
+            with open("/proc/mounts", encoding="utf-8", errors="surrogateescape",
+                    newline="\n") as lines:
                 for line in lines:
                     devname, mpath, fstype, _ = [self.unescape(field) for field in
-                            line.split(None, 3)]
+                            line.split(" ", 3)]
                     self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
         except OSError:
             pass
-- 
2.43.0


From def677ae87f3e853d8d41e6fc94e38dc96c47911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 11/48] fix: take only the trailing arguments as start
 directories

---
 libff/arguments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..ce21920 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,10 +245,11 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
+            for pos in (0, -1):
+                while self.args.tests:
+                    test = self.args.tests[pos]
                     if os.sep in test and os.path.isdir(test):
-                        self.args.tests.remove(test)
+                        self.args.tests.pop(pos)
                         directory = os.path.normpath(test)
                         self.args.directories.append(directory)
                     else:
-- 
2.43.0


From 79d44adae775b3462de0549c765baa0e962e1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 12/48] fix: do not let a test close the brackets put around
 the tests by --depth

---
 libff/arguments.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index ce21920..204d2e3 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -24,6 +24,7 @@ import shlex
 
 from . import MAX_CPU
 from .ignore import IGNORE_FILES
+from .parser import Parser
 from .argparse import ArgumentParser, type_set, type_jobs, type_list, \
     type_slice, type_ranges
 from .exceptions import EX_OK, UsageError
@@ -300,6 +301,13 @@ class ArgumentsPostProcessor:
         tests.append("}}")
 
         if self.args.tests:
+            # The brackets around the existing tests must not be closed by one of these tests.
+            level = 0
+            for test in self.args.tests:
+                level += (test in Parser.OPENING_BRACKETS) - (test in Parser.CLOSING_BRACKETS)
+                if level < 0:
+                    raise UsageError(f"superfluous closing bracket {test!r}")
+
             tests.append("{{")
             tests += self.args.tests
             tests.append("}}")
-- 
2.43.0


From 2ecf5fbb5f7042e9cffec58f54267bc66fb05ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 13/48] fix: translate all character classes of glob patterns
 to valid regular expressions

---
 libff/ignore.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..17501d2 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -48,6 +48,27 @@ class Glob:
             self._regex = re.compile(self.regex_pattern)
         return self._regex
 
+    @staticmethod
+    def translate_class(chars):
+        """Translate the characters inside of [...] to regular expression syntax.
+        """
+        negate = len(chars) > 1 and chars[0] in "!^"
+        if negate:
+            chars = chars[1:]
+
+        # Ranges that are the wrong way round contain no characters, a hyphen at the beginning or
+        # the end is just a hyphen.
+        parts = []
+        for part in re.findall(r"(?s:.-.|.)", chars):
+            if len(part) == 1:
+                parts.append(re.escape(part))
+            elif part[0] <= part[2]:
+                parts.append(f"{re.escape(part[0])}-{re.escape(part[2])}")
+
+        if not parts:
+            return "(?s:.)" if negate else "(?!)"
+        return f"[{'^' if negate else ''}{''.join(parts)}]"
+
     @staticmethod
     def translate(pattern, path_pattern=True):
         """Translate the pattern to a regular expression.
@@ -100,10 +121,8 @@ class Glob:
                 part = "[^/]*"
             elif part == "?":
                 part = "[^/]"
-            elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
             elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+                part = Glob.translate_class(part[1:-1])
             else:
                 part = re.escape(part)
             parts.append(part)
-- 
2.43.0


From 73c897673efb090d3a599d5110e1c4b489e4d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 14/48] fix: match glob patterns against the whole of names
 that contain newlines

---
 libff/ignore.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 17501d2..ea67f50 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -112,11 +112,11 @@ class Glob:
         parts = []
         for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
             if part == "/**/":
-                part = "(?:/|/.+/)"
+                part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
-                part = "(?:.+/)?"
+                part = "(?:(?s:.+)/)?"
             elif part == "/**":
-                part = "(?:/.+)?"
+                part = "(?:/(?s:.+))?"
             elif part == "*":
                 part = "[^/]*"
             elif part == "?":
@@ -127,7 +127,7 @@ class Glob:
                 part = re.escape(part)
             parts.append(part)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
-- 
2.43.0


From ddb004bdea8743521c657a6e00a60cbcac0925d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 15/48] fix: treat an opening bracket without a closing one as
 itself in glob patterns

---
 libff/ignore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index ea67f50..f111e3d 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -121,7 +121,7 @@ class Glob:
                 part = "[^/]*"
             elif part == "?":
                 part = "[^/]"
-            elif part.startswith("["):
+            elif re.fullmatch(r"\[[^\]]+\]", part):
                 part = Glob.translate_class(part[1:-1])
             else:
                 part = re.escape(part)
-- 
2.43.0


From 4b2729f676cb2ec1c48c33b9d65914cfc330eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 16/48] fix: make natural sort keys comparable with each other

Numbers that only str.isdigit() knows crashed int(), and a component could be
compared with a list of extensions, str with int.
---
 libff/field.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..926b411 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -127,6 +127,13 @@ class SortFields(OutputFields):
 
     regex_digits = re.compile(r"(\d+)")
 
+    def split_numbers(self, string):
+        """Split a string into a list of tokens with all numbers converted to ints. The list always
+           starts with a string and alternates between strings and numbers.
+        """
+        return [int(part) if idx % 2 else part
+                for idx, part in enumerate(self.regex_digits.split(string))]
+
     def prepare_component(self, component):
         """Prepare a path component to act as a part of a sort key.
         """
@@ -140,18 +147,10 @@ class SortFields(OutputFields):
             component = comp
             extensions.insert(0, ext)
 
-        # Split the component into string and number parts. Make sure the list starts with a
-        # string.
-        parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
-            parts.insert(0, "")
-
-        # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
-
-        # Yield extensions separately.
-        if extensions:
-            yield extensions
+        # Yield a list of tokens and a (possibly empty) list of the extensions, so that the same
+        # positions of two sort keys always contain values of the same kind.
+        yield self.split_numbers(component)
+        yield [self.split_numbers(ext) for ext in extensions]
 
     def prepare_sort_key(self, value):
         """Prepare a sort key from a path for natural/version sorting.
-- 
2.43.0


From 4f93ad380b458e5f295e4e6825f68d9c8017639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 17/48] fix: natural sorting of missing values and of values
 that are not strings

---
 libff/field.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 926b411..bb9d84a 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -170,12 +170,11 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
-            else:
-                value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+                value = field.type.sort_none
+            value = field.type.sort_key(value)
+            if field.modifier == "v" and isinstance(value, str):
+                value = self.prepare_sort_key(value)
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From a0c3ad2bb14b71ff0ba597ac0be39bcd0dc503bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 18/48] fix: sort lists of strings case-insensitively and make
 sets comparable

---
 libff/type.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libff/type.py b/libff/type.py
index e4d65d8..895f741 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -234,6 +234,13 @@ class ListOfStrings(Type):
     def output(cls, args, modifier, value):
         return ",".join(value)
 
+    @classmethod
+    def sort_key(cls, value):
+        # Sets cannot be put in order, so compare their sorted elements.
+        if isinstance(value, set):
+            value = sorted(value)
+        return [String.sort_key(v) for v in value]
+
     @classmethod
     def check_type(cls, value):
         if not isinstance(value, (list, set)):
-- 
2.43.0


From 928411718cb5cd4013b76d3ce3a988443e6880f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 19/48] fix: --count reports a total of zero if nothing was
 found

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..fc0c9d3 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -220,7 +220,7 @@ class CollectiveMixin(BaseProcessing):
 
         self.out_queue = multiprocessing.Queue()
         self.entries = []
-        self.count = collections.Counter()
+        self.count = collections.Counter(_total=0)
 
     def process(self, entries):
         self.out_queue.put(entries)
-- 
2.43.0


From 6645878ab5d2a2c2b06c59bd1886a373ae2aae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 20/48] fix: print the counts of values of which only some are
 numbers

---
 libff/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index fc0c9d3..7a45f33 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -330,7 +330,8 @@ class CollectiveMixin(BaseProcessing):
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
+                            key=lambda t: (not t[0].isdecimal(),
+                                int(t[0]) if t[0].isdecimal() else 0, t[0])):
                         print(f"{key}[{k}]={v}")
                 else:
                     print(f"{key}={value}")
-- 
2.43.0


From 8cb467c848923f29778eb2cc23ca1bd3df9a5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 21/48] fix: add up the counts of values that are printed the
 same way

---
 libff/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 7a45f33..9ae7b50 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -303,9 +303,9 @@ class CollectiveMixin(BaseProcessing):
                     count[name] = {}
                     for key, val in value.items():
                         # Format the key which is the counted value in this case, JSON objects
-                        # allow only string keys anyway.
+                        # allow only string keys anyway. Different values may look the same.
                         key = field.type.output(self.args, field.modifier, key)
-                        count[name][key] = val
+                        count[name][key] = count[name].get(key, 0) + val
 
                 else:
                     if field.modifier is not None:
-- 
2.43.0


From 6f306f13414691e0b11f9f7c7f267c0850249d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 22/48] fix: do not count entries twice if an attribute is
 given twice for --count

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index bb9d84a..dd80262 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -120,6 +120,9 @@ class CountFields(OutputFields):
             if field.type.count is Count.UNCOUNTABLE:
                 raise UsageError(f"Attribute {field.attribute} is not suited for --count!")
 
+        # Do not count a field twice that was given more than once.
+        self[:] = dict.fromkeys(self)
+
 
 class SortFields(OutputFields):
     """Store a list of fields that help with sorting Entry objects.
-- 
2.43.0


From c19a5024ec3997c078e2238c0102985eca468233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 23/48] fix: report a command that is too long even for a
 single entry

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 9ae7b50..85d66b4 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -375,7 +375,7 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
                 except OSError as exc:
-                    if exc.errno == errno.E2BIG:
+                    if exc.errno == errno.E2BIG and len(entries) > 1:
                         # As long as the command line is too long to pass to a subprocess, split
                         # the list of entries list in two and try again. This is much easier than
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
-- 
2.43.0


From e36230257ae6e87c3fe0a0fc0b0d64174a1a2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 24/48] fix: count commands that cannot be started because of
 null bytes as failed

---
 libff/context.py    | 4 +++-
 libff/processing.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..8550d86 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -169,7 +169,9 @@ class Context:
                 else:
                     process.terminate()
 
-        except OSError as exc:
+        except (OSError, ValueError) as exc:
+            # A ValueError means that the arguments cannot be passed to a process, e.g. because of
+            # null bytes.
             self.logger.error(exc, None)
 
         if exitcode != 0:
diff --git a/libff/processing.py b/libff/processing.py
index 85d66b4..7696621 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -385,6 +385,9 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                         entries = entries[:split]
                     else:
                         raise SubprocessError(str(exc)) from exc
+                except ValueError as exc:
+                    # The arguments cannot be passed to a process, e.g. because of null bytes.
+                    raise SubprocessError(str(exc)) from exc
                 else:
                     entries = remainder
                     remainder = []
-- 
2.43.0


From 5716d3f6da07fadc5127c726f286e5e8739e4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 25/48] fix: report start directories that do not exist as
 usage errors

---
 libff/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..d06d8ed 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -173,7 +173,12 @@ class _Base(BaseClass):
                     self.logger.debug("info",
                             f"    found ignorefile in parent: {ignore}")
 
-            walker.put([Directory(StartDirectory(self.context.args, path), "", ignores)])
+            try:
+                start = StartDirectory(self.context.args, path)
+            except OSError as exc:
+                raise UsageError(str(exc)) from exc
+
+            walker.put([Directory(start, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
         """Set up context, components, processing and walkers.
-- 
2.43.0


From 3f021795a9d12955b81c142deb0ae383430ad6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 26/48] fix: report malformed --exclude expressions as usage
 errors

---
 libff/main.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index d06d8ed..97ad367 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -137,9 +137,12 @@ class _Base(BaseClass):
         except ParserError as exc:
             raise UsageError(f"unable to parse tests: {exc}") from exc
 
-        # Setup the excluder from the command line arguments.
-        excluder = Excluder(self.context, args.exclude)
-        self.context.excluder = excluder
+        try:
+            # Setup the excluder from the command line arguments.
+            excluder = Excluder(self.context, args.exclude)
+            self.context.excluder = excluder
+        except ParserError as exc:
+            raise UsageError(f"unable to parse excludes: {exc}") from exc
 
     def setup_walker(self):
         """Set up the filesystem walker processes.
-- 
2.43.0


From 709d16fa99aed3e9bc3e34f43560cbd4dc8794c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 27/48] fix: print entries with --color=always although
 LS_COLORS is not set

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..9e8d879 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -261,7 +261,7 @@ class ColorConsole(Console):
     def __init__(self, context):
         super().__init__(context)
 
-        self.colors = {}
+        self.colors = collections.defaultdict(lambda: None)
         self.extensions = {}
         rules = {}
 
-- 
2.43.0


From f3278c17d7240708942681ff717e131fc3e3929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 28/48] fix: ignore LS_COLORS rules that are not colours

---
 libff/console.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 9e8d879..f2aab39 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import sys
 import json
 import collections
@@ -282,7 +283,10 @@ class ColorConsole(Console):
             except ValueError:
                 continue
             else:
-                if len(key) == 2 and key.isalpha():
+                if not re.match(r"^[0-9;]*\Z", value):
+                    # E.g. 'ln=target'.
+                    continue
+                elif len(key) == 2 and key.isalpha():
                     rules[key] = value
                 else:
                     ext = os.path.splitext(key)[1][1:]
-- 
2.43.0


From 1c2d6646a4980ba9b8a0e7ae70d00f2cbf398e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 29/48] fix: do not mix up the records of several processes

---
 libff/console.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index f2aab39..43f36c4 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -74,7 +74,11 @@ class JsonlConsole(BaseConsole):
     def process(self, entry):
         """Print a JSON record for the Entry object.
         """
-        self.print_record(self.fields.to_dict(entry))
+        record = self.fields.to_dict(entry)
+
+        # Large records are written in several parts, other processes must not intervene.
+        with self.context.global_lock:
+            self.print_record(record)
 
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
@@ -237,7 +241,9 @@ class Console(BaseConsole):
                 else:
                     return
 
-        self.write_line(self.field_separator.join(output))
+        # Large records are written in several parts, other processes must not intervene.
+        with self.context.global_lock:
+            self.write_line(self.field_separator.join(output))
 
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
-- 
2.43.0


From f9718428c1079db3e02cac38eba9ea7915b6b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 30/48] fix: pad empty fields to their width

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 43f36c4..8c16d93 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -237,7 +237,7 @@ class Console(BaseConsole):
                 output.append(self.format_field(entry, field))
             except KeyError:
                 if self.args.all or field.modifier == "n":
-                    output.append("")
+                    output.append(self.pad_string(String("", 0), int(field.width or 0)))
                 else:
                     return
 
-- 
2.43.0


From 07910794d6d03928c796e8c0d44d409faa0ef387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 31/48] fix: print names that the encoding of the standard
 output lacks

---
 libff/console.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 8c16d93..09a4745 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -251,7 +251,8 @@ class Console(BaseConsole):
         try:
             print(line, end=self.args.newline)
         except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+            encoding = sys.stdout.encoding or self.encoding
+            print(line.encode(encoding, "backslashreplace").decode(encoding),
                     end=self.args.newline)
 
         # If we don't flush stdout, printed results may be lost. That is because when the main
-- 
2.43.0


From 994902e2f99a8f89ebd432ddf8cb09a80fc23dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 32/48] fix: do not print a double slash for files in the root
 directory

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 09a4745..661466e 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -157,7 +157,7 @@ class Console(BaseConsole):
         name = self.render_name(entry)
 
         if entry.dir:
-            dirname = self.render_directory(entry.dir + os.sep)
+            dirname = self.render_directory(entry.dir + (os.sep if entry.dir != os.sep else ""))
             path = String(dirname.value + name.value, dirname.length + name.length)
         else:
             path = name
-- 
2.43.0


From 05951c61f10842458cf58736e247d4349c4a273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 33/48] fix: print sets in JSON output

---
 libff/console.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 661466e..a9628b1 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -83,7 +83,8 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
+        # There are no sets in JSON.
+        json.dump(record, sys.stdout, default=sorted)
         print()
         sys.stdout.flush()
 
@@ -103,7 +104,8 @@ class JsonConsole(JsonlConsole):
         """
         if self.print_comma:
             print(",", end="")
-        json.dump(record, sys.stdout)
+        # There are no sets in JSON.
+        json.dump(record, sys.stdout, default=sorted)
         self.print_comma = True
 
     def close(self):
-- 
2.43.0


From 1a9dc536086ed29fc134509df420ab3f293e43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 34/48] fix: read ignore files from the immediate parent of a
 start directory

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 97ad367..34abdf6 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -165,7 +165,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From a573af2e8ceac0362d65a4580a4816d047830626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 35/48] fix: read ignore files that are not valid in the
 filesystem encoding

---
 libff/ignore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index f111e3d..7673da7 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -20,6 +20,7 @@
 
 import os
 import re
+import sys
 import collections
 
 from .path import join
@@ -187,8 +188,8 @@ class GitIgnore:
         self.dirname = dirname
         self.path = join(dirname, name)
 
-        # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        # Names that are not valid in the encoding of the filesystem are matched byte by byte.
+        with open(self.path, encoding=sys.getfilesystemencoding(), errors="surrogateescape") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
-- 
2.43.0


From aa2881e290a6e1713d94ec7b1ac7b16fd299ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 36/48] fix: report malformed FF_OPTIONS as a usage error

---
 libff/arguments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 204d2e3..300795a 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -346,7 +346,10 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    try:
+        argv = collect_arguments()
+    except ValueError as exc:
+        parser.error(f"invalid value for FF_OPTIONS: {exc}")
     args = parser.parse_args(argv)
 
     if args.help == "all":
-- 
2.43.0


From bdaa393f0c6837c6b4ce9e58a3de4a116da81fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 37/48] fix: accept bundles of short options that end in an
 option with a value

---
 libff/argparse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index dbe12c4..e0823b1 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -357,9 +357,10 @@ class ArgumentParser:
             short_option = f"-{arg[0]}"
             option = self.get_option(short_option)
 
-            if option.action in ("store", "store_optional", "append"):
+            if option.action in ("store", "store_optional", "append", "store_remainder"):
                 argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+                if arg[1:]:
+                    argv.insert(i + 1, arg[1:])
                 break
             else:
                 argv.insert(i, short_option)
-- 
2.43.0


From c35fbb1ded85695a28e5a32e2f62ddd5548e0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 38/48] fix: report values that are malformed or not among the
 choices as usage errors

---
 libff/argparse.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index e0823b1..0757caa 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -421,7 +421,7 @@ class ArgumentParser:
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -429,7 +429,21 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
+
+    def convert_argument(self, option, string):
+        """Convert an argument to the type of the option and check it.
+        """
+        try:
+            value = option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"invalid value {string!r} for {option.repr}: {exc}") from exc
+
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"invalid value {string!r} for {option.repr} "\
+                    f"(choose from {', '.join(option.choices)})")
+
+        return value
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 489807dc67ab7db85a0e753850c6128b387e32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 39/48] fix: reject empty operands of OR inside brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..2a6b446 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From 74e282322a41fd14be72991f53c1944edaa86498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 40/48] fix: accept tests whose value contains newlines

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 2a6b446..98dc3be 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -94,7 +94,7 @@ class Parser(BaseClass):
     expression_regex = re.compile(r"^\s*((?:\w+\.)?\w+?)\s*"\
                                   r"(=|:|~|%|>=|>|<=|<|\+=|\+|\-=|\-)"\
                                   r"(\{(?:\w+\.)?\w+?\}|\{\})?"\
-                                  r"\s*(.+)\s*$")
+                                  r"\s*((?s:.+))$")
 
     def __init__(self, context, tokens):
         super().__init__(context)
-- 
2.43.0


From 51e70e463ea02f41959b09aa9635a90febcd1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 41/48] fix: ignore the case of patterns without changing their
 meaning

---
 libff/ignore.py |  5 +++--
 libff/parser.py | 14 ++++++++------
 libff/type.py   | 27 +++++++++++++--------------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 7673da7..a68ec82 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -34,8 +34,9 @@ class Glob:
     """A single gitignore-style pattern.
     """
 
-    def __init__(self, pattern, path_pattern=True):
+    def __init__(self, pattern, path_pattern=True, ignore_case=False):
         self.pattern = pattern
+        self.ignore_case = ignore_case
 
         self.regex_pattern, self.include, self.anchored, self.directory = \
                 self.translate(self.pattern, path_pattern)
@@ -46,7 +47,7 @@ class Glob:
         """The compiled regular expression.
         """
         if self._regex is None:
-            self._regex = re.compile(self.regex_pattern)
+            self._regex = re.compile(self.regex_pattern, re.IGNORECASE if self.ignore_case else 0)
         return self._regex
 
     @staticmethod
diff --git a/libff/parser.py b/libff/parser.py
index 98dc3be..e7291bd 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,17 +306,19 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
-                value = value.lower()
-
-            # Pre-compile regular expressions.
+            # Pre-compile regular expressions. A pattern must not be converted to lowercase as that
+            # may change its meaning, e.g. \D and \d.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
             elif operator == "%":
-                value = Glob(value, path_pattern=issubclass(type_cls, Path))
+                value = Glob(value, path_pattern=issubclass(type_cls, Path),
+                        ignore_case=ignore_case)
+
+            elif ignore_case:
+                value = value.lower()
 
         return Test(attribute, operator, type_cls, value, ignore_case)
diff --git a/libff/type.py b/libff/type.py
index 895f741..9df538f 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -97,8 +97,9 @@ class Type:
                 ignore_case         Whether or not to consider case for string comparison,
                                     None if the Type is not a string type.
 
-            If both string_type and `test.ignore_case` are True test.value will be in lowercase. It
-            is up to you to convert `value` to lowercase as well.
+            If both string_type and `test.ignore_case` are True test.value will be in lowercase for
+            the operators '=' and ':'. It is up to you to convert `value` to lowercase as well. The
+            patterns for the operators '~' and '%' ignore the case by themselves.
         """
         raise NotImplementedError
 
@@ -139,20 +140,22 @@ class String(Type):
 
     @classmethod
     def test(cls, entry, test, value):
-        # If the test is case insensitive, the test.value argument has already been converted to
-        # lower case.
-        if test.ignore_case:
-            value = value.lower()
-
         if test.operator == "%":
             if test.value.match(value, value, False):
                 return test.value.include
             else:
                 return not test.value.include
 
+        elif test.operator == "~":
+            return test.value.search(value) is not None
+
+        # If the test is case insensitive, the test.value argument has already been converted to
+        # lower case.
+        if test.ignore_case:
+            value = value.lower()
+
         return test.operator == "=" and value == test.value or \
-                test.operator == ":" and test.value in value or \
-                test.operator == "~" and test.value.search(value) is not None
+                test.operator == ":" and test.value in value
 
     @classmethod
     def sort_key(cls, value):
@@ -166,14 +169,10 @@ class Path(String):
 
     @classmethod
     def test(cls, entry, test, value):
-        if test.ignore_case:
-            value = value.lower()
-
         if test.operator == "%":
-            basename = entry.name.lower() if test.ignore_case else entry.name
             is_dir = entry.is_dir()
 
-            if test.value.match(value, basename, is_dir):
+            if test.value.match(value, entry.name, is_dir):
                 return test.value.include
             else:
                 return not test.value.include
-- 
2.43.0


From 5d1a98858e5c21576afd25db744b8b331af3533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 42/48] fix: do not share cache rows between paths that cannot
 be decoded

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..5b4366e 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -138,7 +138,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -153,7 +153,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 42c689bba97006042a9c57c5cab247ce64b66036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 43/48] fix: make --clean-cache vacuum outside of a transaction

---
 libff/cache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 5b4366e..2e722ec 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -194,10 +194,14 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
-        for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
-            for path, in self.conn.execute(f"select path from {table}"):
+        tables = self.conn.execute(
+                "select name from sqlite_master where type = 'table'").fetchall()
+
+        for table, in tables:
+            for path, in self.conn.execute(f"select path from {table}").fetchall():
                 if not os.path.exists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # The database cannot be vacuumed from within a transaction.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From 3f4494f47b28eab42dd072b8b6c85973d2dbba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 44/48] fix: drop only the cache tables of older versions of
 the same plugin

---
 libff/cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 2e722ec..e3b920f 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -109,12 +109,12 @@ class Cache(NullCache):
            older versions of this plugin.
         """
         # Ask the database if a table exists for this plugin.
-        curs = self.conn.execute(
-                "select name from sqlite_master where type = 'table' and name like ?",
-                (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
+        prefix = plugin_cls.sql_table_name.rstrip(string.digits)
+        curs = self.conn.execute("select name from sqlite_master where type = 'table'")
+        tables = set(row[0] for row in curs
+                if row[0].startswith(prefix) and row[0][len(prefix):].isdecimal())
 
         # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
-- 
2.43.0


From 6e9f2c6cac8831b81c1f9247828bbf03aba731b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 45/48] fix: set up plugins and cache tables for every search
 of a process

---
 libff/cache.py    | 4 ++--
 libff/registry.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index e3b920f..10e1833 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -64,8 +64,6 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
@@ -74,6 +72,8 @@ class Cache(NullCache):
 
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
+        self.registered = {}
+
         self.num_cached_rows = 0
         self.last_commit = time.time()
         self.cached_rows = {}
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..fd07242 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,14 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        # The plugins that are in use are set up with the cache of this particular context.
+        self.plugins = {}
+
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From 9dac56538fcb172a77cc1ccef3cd2819319ac997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 46/48] fix: attribute file references to the start directory /

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 1ca909d..c222b70 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -116,7 +116,7 @@ class Entry:
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
-            dirname = os.path.abspath(directory) + os.sep
+            dirname = os.path.join(os.path.abspath(directory), "")
             if abspath.startswith(dirname):
                 relpath = abspath[len(dirname):]
                 break
-- 
2.43.0


From f7e859725e3362509955ceb65db7f94c0e41bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 47/48] fix: accept file references without a directory, to
 directories and to /

---
 libff/entry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index c222b70..efe9db9 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -121,7 +121,8 @@ class Entry:
                 relpath = abspath[len(dirname):]
                 break
         else:
-            directory, relpath = split(path)
+            directory, relpath = split(path.rstrip(os.sep) or os.sep)
+            directory = directory or os.curdir
 
         start_directory = StartDirectory(args, directory)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
@@ -151,7 +152,7 @@ class Entry:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
 
-        self.hide = self.name[0] == "."
+        self.hide = self.name.startswith(".")
 
         self.mode = self.status.st_mode
 
-- 
2.43.0


From ddeb466e3bbda6bd89697ddbacf40b3ea8e6c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 48/48] fix: reject file references to lists instead of
 crashing

---
 libff/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index e7291bd..7f77600 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -22,7 +22,7 @@ import re
 import collections
 
 from . import BaseClass
-from .type import Path, Type
+from .type import ListOfStrings, Path, Type
 from .entry import Entry
 from .ignore import Glob
 from .attribute import Attribute
@@ -249,6 +249,10 @@ class Parser(BaseClass):
             raise ExpressionError(f"{attribute} and {ref_attribute} have different types "\
                     "and cannot be compared") from exc
 
+        # There is no single value to compare with in a list.
+        if issubclass(ref_type_cls, ListOfStrings):
+            raise ExpressionError(f"{ref_attribute} is a list and cannot be used as a reference")
+
         entry = Entry.as_reference(self.args, value)
         return self.registry.get_attribute(entry, ref_attribute)
 
-- 
2.43.0

