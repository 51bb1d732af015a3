From d12abad6bbaee11f0bbf1c4d55820f4a529e1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 001/100] fix: find macros following an escaped percent sign
 that follows another macro

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..b219a0c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,7 +250,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From ed0849b8e1eb0a719c62891456e05b1197eb532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 002/100] fix: skip escaped parentheses when looking for the
 end of a macro

---
 specfile/value_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index b219a0c..9b24e17 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -215,9 +215,12 @@ class ValueParser:
 
         def find_matching_parenthesis(index):
             level = 0
+            escaped = False
             for i in range(index, len(value)):
-                if value[i] == "\\":
-                    continue
+                if escaped:
+                    escaped = False
+                elif value[i] == "\\":
+                    escaped = True
                 elif value[i] == pairs[value[index]]:
                     level -= 1
                     if level <= 0:
-- 
2.43.0


From 0052e5545227b928360193cf62a6aca9e7d26e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 003/100] fix: don't fail on parsing a macro substitution with
 empty body

---
 specfile/value_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 9b24e17..4f70a8c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -104,7 +104,8 @@ class EnclosedMacroSubstitution(Node):
             _, self.prefix, rest = tokens
         self.name: str
         self.args: List[str]
-        self.name, *self.args = rest.split()
+        # an empty body is valid, RPM doesn't expand it
+        self.name, *self.args = rest.split() or [""]
 
     @formatted
     def __repr__(self) -> str:
-- 
2.43.0


From bcbfe76131c19e614ce378b8d0b1d772648dfe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 004/100] fix: preserve whitespace in enclosed macro
 substitutions

---
 specfile/value_parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 4f70a8c..a7cdac9 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -106,6 +106,10 @@ class EnclosedMacroSubstitution(Node):
         self.args: List[str]
         # an empty body is valid, RPM doesn't expand it
         self.name, *self.args = rest.split() or [""]
+        # preserve whitespace around name and arguments
+        self._whitespace: List[str] = (
+            re.split(r"\S+", rest) if self.name else [rest, ""]
+        )
 
     @formatted
     def __repr__(self) -> str:
@@ -113,8 +117,14 @@ class EnclosedMacroSubstitution(Node):
         return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        words = [self.name, *self.args]
+        whitespace = self._whitespace
+        if len(whitespace) != len(words) + 1:
+            whitespace = ["", *[" "] * len(self.args), ""]
+        body = whitespace[0] + "".join(
+            w + ws for w, ws in zip(words, whitespace[1:])
+        )
+        return f"%{{{self.prefix}{body}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From 03ab6b53f130341dd86d2c59cf9af31ffb6b0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 005/100] fix: treat percent sign at the end of a value as a
 literal like RPM does

---
 specfile/value_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index a7cdac9..8f91ebb 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -262,12 +262,12 @@ class ValueParser:
         while start < len(value):
             try:
                 end = value.index("%", start + offset)
-                try:
-                    if value[end + 1] == "%":
-                        offset = end + 2 - start
-                        continue
-                except IndexError:
-                    raise UnterminatedMacroException
+                if end + 1 == len(value):
+                    # percent sign at the end of the value is a literal
+                    break
+                if value[end + 1] == "%":
+                    offset = end + 2 - start
+                    continue
             except ValueError:
                 end = None
             if end is None:
-- 
2.43.0


From 31b5716d875524ee0773180136093069a4a835fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 006/100] fix: delete also the flag itself, not just the
 whitespace before it

---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..688c397 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -396,19 +396,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From e461dc258ea1b520113e000a187242e01b413334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 007/100] fix: don't garble flags that are already set when
 setting them to True

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 688c397..f1d4f83 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -372,6 +372,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already set
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From f5dea44d2ee20e676ee6fb43f52ed3c87dca2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 008/100] fix: separate positional argument inserted at the
 very beginning

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index f1d4f83..5e04063 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -205,6 +205,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From 2636ab4605a27cfc15b335646cb5843a062eb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 009/100] fix: don't try to convert numeric but non-decimal
 option arguments to integers

---
 specfile/options.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 5e04063..d8dcec5 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -100,11 +100,11 @@ class Positionals(collections.abc.MutableSequence):
             result = []
             for index in items[i]:
                 value = self._options._tokens[index].value
-                result.append(int(value) if value.isnumeric() else value)
+                result.append(int(value) if value.isdecimal() else value)
             return result
         else:
             value = self._options._tokens[items[i]].value
-            return int(value) if value.isnumeric() else value
+            return int(value) if value.isdecimal() else value
 
     @overload
     def __setitem__(self, i: int, item: Union[int, str]) -> None:
@@ -334,7 +334,7 @@ class Options(collections.abc.MutableMapping):
         )
         if not value:
             return True
-        if value.isnumeric():
+        if value.isdecimal():
             return int(value)
         return value
 
-- 
2.43.0


From e8f6060bbebe68b3f998bb60dab8879e966f8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:33 +0000
Subject: [PATCH 010/100] fix: preserve original representation of unmodified
 option tokens

Escapes, empty quotes and whitespace or quotes inside macros were altered
or lost when converting tokenized options back to a string.
---
 specfile/options.py | 50 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index d8dcec5..d103c6b 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,21 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(
+        self, type: TokenType, value: str, raw: Optional[str] = None
+    ) -> None:
         self.type = type
         self.value = value
+        # original representation, used as long as the token is not modified
+        self._raw = None if raw is None else (self._key(), raw)
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        if self._raw is not None and self._raw[0] == self._key():
+            return self._raw[1]
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -47,8 +53,8 @@ class Token(collections.abc.Hashable):
             # escape double quotes
             value = self.value.replace('"', r"\"")
             return f'"{value}"'
-        # escape quotes and whitespace
-        return re.sub(r"['\"\s]", r"\\\g<0>", self.value)
+        # escape backslashes, quotes and whitespace
+        return re.sub(r"[\\'\"\s]", r"\\\g<0>", self.value)
 
     def _key(self) -> tuple:
         return self.type, self.value
@@ -477,7 +483,7 @@ class Options(collections.abc.MutableMapping):
             OptionsException: If the option string is untokenizable.
         """
         result: List[Token] = []
-        token = ""
+        token = raw = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -488,33 +494,35 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                if token:
-                    result.append(
-                        Token(
-                            (
-                                TokenType.QUOTED
-                                if quote == "'"
-                                else TokenType.DOUBLE_QUOTED
-                            ),
-                            token,
-                        )
+                result.append(
+                    Token(
+                        (
+                            TokenType.QUOTED
+                            if quote == "'"
+                            else TokenType.DOUBLE_QUOTED
+                        ),
+                        token,
+                        raw + c,
                     )
-                    token = ""
+                )
+                token = raw = ""
                 quote = None
                 continue
             if quote:
+                raw += c
                 if c == "\\":
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
+                    raw += c
                     if c != quote:
                         token += "\\"
                 token += c
                 continue
             if c.isspace():
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                    result.append(Token(TokenType.DEFAULT, token, raw))
+                    token = raw = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -529,17 +537,19 @@ class Options(collections.abc.MutableMapping):
                 continue
             if c in ('"', "'"):
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
+                    result.append(Token(TokenType.DEFAULT, token, raw))
                     token = ""
-                quote = c
+                quote = raw = c
                 continue
+            raw += c
             if c == "\\":
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
+                raw += c
             token += c
         if quote:
             raise OptionsException("No closing quotation")
         if token:
-            result.append(Token(TokenType.DEFAULT, token))
+            result.append(Token(TokenType.DEFAULT, token, raw))
         return result
-- 
2.43.0


From 822904be5fc1c43b70507134a284a304542169f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 011/100] fix: consider only one branch of a condition with
 multiple %elif branches valid

---
 specfile/conditions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..0ad443d 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # whether any branch of the particular condition has already been true
+    satisfied = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -132,10 +134,11 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            satisfied.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
             if branches[-2]:
-                branches[-1] = not branches[-1]
+                branches[-1] = not satisfied[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -154,6 +157,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                satisfied[-1] = satisfied[-1] or branch
             else:
                 branches.append(branch)
+                satisfied.append(branch)
     return result
-- 
2.43.0


From 669a4b03af742cee5e85b889521821c412de838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 012/100] fix: don't expand lines in false branches of
 conditions

---
 specfile/conditions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 0ad443d..902ecdd 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -121,11 +121,14 @@ def process_conditions(
         if any(index in r for r in excluded_lines):
             result.append((line, branches[-1]))
             continue
-        try:
-            expanded_line = expand(line)
-        except RPMException:
-            # ignore failed expansion and use the original line
-            expanded_line = line
+        expanded_line = line
+        # RPM doesn't expand lines in false branches
+        if branches[-1]:
+            try:
+                expanded_line = expand(line)
+            except RPMException:
+                # ignore failed expansion and use the original line
+                pass
         m = condition_regex.match(expanded_line)
         if not m:
             result.append((line, branches[-1]))
-- 
2.43.0


From a7fca4568cbd93d972008fcf4d0cfe4c4a3bd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 013/100] fix: don't fail on processing conditions starting
 outside of the given lines

---
 specfile/conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 902ecdd..35e7805 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -134,6 +134,10 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if len(branches) == 1 and (keyword == "%endif" or keyword.startswith("%el")):
+            # the condition starts outside of the given lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
-- 
2.43.0


From 7b5daa2e7f5bf40d1a7fa21a4c2f93cd2cfe689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 014/100] fix: preserve lines preceding a deleted tag in all
 cases

---
 specfile/tags.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..efffa25 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -383,10 +383,10 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From b0b89877f642864ff87e63795dc8794b400331f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 015/100] fix: preserve lines preceding a deleted macro
 definition in all cases

---
 specfile/macro_definitions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..4f95698 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
@@ -239,10 +239,10 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
-- 
2.43.0


From cdf618f19bc26559c366336fc290f0edab0165c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 016/100] fix: calculate position correctly with multiline
 values and identical items

---
 specfile/macro_definitions.py | 9 ++++++---
 specfile/tags.py              | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 4f95698..e21967e 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -126,9 +126,12 @@ class MacroDefinition:
         Returns:
             Position expressed as line number (starting from 0).
         """
-        return sum(
-            len(md.get_raw_data()) for md in container[: container.index(self)]
-        ) + len(self._preceding_lines)
+        index = next((i for i, md in enumerate(container) if md is self), None)
+        if index is None:
+            index = container.index(self)
+        return sum(len(md.get_raw_data()) for md in container[:index]) + len(
+            self._preceding_lines
+        )
 
     def get_raw_data(self) -> List[str]:
         result = self._preceding_lines.copy()
diff --git a/specfile/tags.py b/specfile/tags.py
index efffa25..be71e4a 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -297,9 +297,12 @@ class Tag:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        index = next((i for i, t in enumerate(container) if t is self), None)
+        if index is None:
+            index = container.index(self)
         return sum(
-            len(t.comments.get_raw_data()) + 1
-            for t in container[: container.index(self)]
+            len(t.comments.get_raw_data()) + len(t.value.split("\n"))
+            for t in container[:index]
         ) + len(self.comments.get_raw_data())
 
 
-- 
2.43.0


From a5c51bd9613450871619fcdc2a563ac4757cad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 017/100] fix: resolve an expression evaluating to an empty
 string as false

---
 specfile/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 35e7805..ed8210c 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -47,7 +47,8 @@ def resolve_expression(
         try:
             return int(result) != 0
         except ValueError:
-            return True
+            # empty string is false
+            return bool(result)
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From ba28b0dd4a0f9de046d47646d4057fde203c0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 018/100] fix: compare arches and OSes in conditions
 case-insensitively like RPM does

---
 specfile/conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index ed8210c..17d5c42 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -50,12 +50,12 @@ def resolve_expression(
             # empty string is false
             return bool(result)
     elif keyword.endswith("arch"):
-        target_cpu = expand("%{_target_cpu}")
-        match = any(t for t in expand(expression).split() if t == target_cpu)
+        target_cpu = expand("%{_target_cpu}").lower()
+        match = any(t for t in expand(expression).lower().split() if t == target_cpu)
         return not match if keyword == "%ifnarch" else match
     elif keyword.endswith("os"):
-        target_os = expand("%{_target_os}")
-        match = any(t for t in expand(expression).split() if t == target_os)
+        target_os = expand("%{_target_os}").lower()
+        match = any(t for t in expand(expression).lower().split() if t == target_os)
         return not match if keyword == "%ifnos" else match
     return False
 
-- 
2.43.0


From ab713e320944b96f945dfd1f97de91939fc827c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 019/100] fix: preserve conditional macro expansions in %prep
 that are not %prep macros

---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..e8f4112 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for raw_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(raw_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From cfd3ab6045f3dadf7a20d928293678a2e147b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 020/100] fix: make it possible to remove the very first macro
 in %prep

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index e8f4112..a4a87bf 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 0b0ed9b205edb439d7a7cd579e7e2381bde41c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 021/100] fix: preserve position of lines when deleting a %prep
 macro by negative index

---
 specfile/prep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index a4a87bf..6e5190a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,10 +216,10 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
-- 
2.43.0


From 774fabcb369a5a6bcd1176f195f42711e2a896e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 022/100] fix: preserve position of lines when deleting a
 changelog entry by negative index

---
 specfile/changelog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..83266ca 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,10 +254,10 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
-- 
2.43.0


From 60b0561c439e52e54bc11e0d6abb780272c93919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 023/100] fix: don't duplicate trailing whitespace of multiline
 tag values

---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index be71e4a..1215784 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -523,6 +523,7 @@ class Tags(UserList[Tag]):
                     bc, pc = count_brackets(value)
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
+                        ws = ""
                         line, _ = pop(lines)
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
-- 
2.43.0


From e68948204eba8b89a2196ffb39a799ec3236a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 024/100] fix: split content into lines only on newline
 characters

---
 specfile/sections.py | 5 ++++-
 specfile/specfile.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..c4ce13d 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,10 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        lines = str(self).split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return lines
 
 
 class Sections(UserList[Section]):
diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..8e0d066 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,10 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        lines = content.split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return lines, content.endswith("\n")
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 1a0284318a23fb20ed972eee0729c3b2db0b3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:47 +0000
Subject: [PATCH 025/100] fix: don't fail on mentions of %prep macros followed
 by untokenizable text

---
 specfile/prep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 6e5190a..931f296 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -7,6 +7,7 @@ import re
 from abc import ABC
 from typing import Any, Dict, List, Optional, Union, cast, overload
 
+from specfile.exceptions import SpecfileException
 from specfile.formatter import formatted
 from specfile.options import Options
 from specfile.sections import Section
@@ -392,8 +393,14 @@ class Prep(collections.abc.Container):
                 if not klass:
                     buffer.append(raw_line)
                     continue
+                try:
+                    tokens = Options.tokenize(option_string)
+                except SpecfileException:
+                    # most likely not an actual macro, e.g. a mention in a comment
+                    buffer.append(raw_line)
+                    continue
                 options = Options(
-                    Options.tokenize(option_string),
+                    tokens,
                     klass.OPTSTRING,
                     klass.DEFAULTS,
                 )
-- 
2.43.0


From c0757940842a7dc8de34991febbdcc6a2f446fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 026/100] fix: recognize sections with trailing whitespace
 after their ID

---
 specfile/sections.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index c4ce13d..83e10db 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -246,6 +246,12 @@ class Sections(UserList[Section]):
             content = []
             separator = "\n"
             tokens = re.split(r"(\s+)", line)
+            trailing_whitespace = ""
+            if tokens[-1] == "" and (len(tokens) > 3 or tokens[0].lower() != PREAMBLE):
+                # trailing whitespace is not part of section ID
+                tokens.pop()
+                trailing_whitespace = tokens.pop()
+                separator = trailing_whitespace + separator
             if len(tokens) > 2 and tokens[-1].startswith("%"):
                 # if the last token after macro expansion starts with a newline,
                 # consider it part of section content
@@ -255,7 +261,7 @@ class Sections(UserList[Section]):
                     pass
                 else:
                     if expanded.startswith("\n"):
-                        content = [tokens.pop()]
+                        content = [tokens.pop() + trailing_whitespace]
                         separator = tokens.pop()
             if len(tokens) > 2:
                 name = tokens[0]
-- 
2.43.0


From 86754e110b6f613fede5c9073f8c1f26791cee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:08 +0000
Subject: [PATCH 027/100] fix: preserve trailing whitespace in multiline macro
 definitions

---
 specfile/macro_definitions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index e21967e..e5c526b 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -338,9 +338,12 @@ class MacroDefinitions(UserList[MacroDefinition]):
                         body += ws3
                         ws3 = ""
                     bc, pc = count_brackets(body)
-                    while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
+                    while (
+                        bc > 0 or pc > 0 or (body + ws3).endswith("\\")
+                    ) and lines:
                         line, _ = pop(lines)
-                        body += "\n" + line
+                        body += ws3 + "\n" + line
+                        ws3 = ""
                         bc, pc = count_brackets(body)
                 tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
                 if len(tokens) == 1:
-- 
2.43.0


From a932cd844a21b71c1fc23aa324530a5dcdbbb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:24 +0000
Subject: [PATCH 028/100] fix: preserve trailing empty line in multiline macro
 definitions

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index e5c526b..5b452b2 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -345,7 +345,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                         body += ws3 + "\n" + line
                         ws3 = ""
                         bc, pc = count_brackets(body)
-                tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
+                tokens = re.split(r"([^\S\n]+)\Z", body, maxsplit=1)
                 if len(tokens) == 1:
                     body = tokens[0]
                 else:
-- 
2.43.0


From 0f8ccaf49f9392f5f77cf855b840851c3be998c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:48 +0000
Subject: [PATCH 029/100] fix: preserve %dnl in macro definitions that are
 commented out twice

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 5b452b2..4e8e533 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -362,7 +362,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if escaped and "#" in sc and not dnl
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From 40639ac1a1d695ade729b6dca3e9e6aff5974540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:24 +0000
Subject: [PATCH 030/100] fix: make it possible to process spec files with
 invalid UTF-8 sequences

---
 specfile/macros.py      | 2 +-
 specfile/spec_parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..75a5069 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -147,7 +147,7 @@ class Macros:
         try:
             with capture_stderr() as stderr:
                 return rpm.expandMacro(expression)
-        except rpm.error as e:
+        except (rpm.error, UnicodeEncodeError) as e:
             raise RPMException(stderr=stderr) from e
 
     @classmethod
diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..14c9f34 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -225,7 +225,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode("utf8", "surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From cae9d351ba9a80aeca30695b88cf64531fb1066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:24 +0000
Subject: [PATCH 031/100] fix: don't leave parser without the spec attribute
 after an unexpected error

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 14c9f34..b88fd44 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -390,7 +390,7 @@ class SpecParser:
                 raise
             else:
                 SpecParser._last_parse_hash = parse_hash
-        except RPMException:
+        except Exception:
             self.spec = None
             self.tainted = False
             raise
-- 
2.43.0


From 2d9c5b4ee18de93d52763be5a61f2247900f8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:24 +0000
Subject: [PATCH 032/100] fix: make sure a copied parser can't skip its first
 parse

---
 specfile/spec_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index b88fd44..60adda1 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -376,7 +376,9 @@ class SpecParser:
         parse_hash = hashlib.sha256(
             pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         ).digest()
-        if parse_hash == SpecParser._last_parse_hash:
+        # a copy could have been assigned the same id as a previously deleted instance,
+        # make sure there is something to reuse
+        if self.spec and parse_hash == SpecParser._last_parse_hash:
             # none of the input parameters has changed, no need to parse again
             return
         if self.spec:
-- 
2.43.0


From c40340a28134e797048d929e692df3d53588406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:41 +0000
Subject: [PATCH 033/100] fix: remove dummy sources also when creating some of
 them fails unexpectedly

---
 specfile/spec_parser.py | 54 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 60adda1..f3e4675 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -135,35 +135,35 @@ class SpecParser:
             (".7z", b"7z\xbc\xaf\x27\x1c"),
         ]
         dummy_sources = []
-        for source in sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            for ext, magic in SIGNATURES:
-                if filename.endswith(ext):
-                    if write_magic(path, magic):
+        try:
+            for source in sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if path.exists():
+                    continue
+                for ext, magic in SIGNATURES:
+                    if filename.endswith(ext):
+                        if write_magic(path, magic):
+                            dummy_sources.append(path)
+                        break
+                else:
+                    if write_magic(path, None):
                         dummy_sources.append(path)
-                    break
-            else:
-                if write_magic(path, None):
+            for source in non_empty_sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if path.exists():
+                    continue
+                try:
+                    path.write_text("DUMMY")
+                except (FileNotFoundError, OSError, PermissionError):
+                    logger.warning(f"Failed to create a dummy source: {path}")
+                else:
                     dummy_sources.append(path)
-        for source in non_empty_sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            try:
-                path.write_text("DUMMY")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-            else:
-                dummy_sources.append(path)
-        try:
             yield dummy_sources
         finally:
             for path in dummy_sources:
-- 
2.43.0


From 0304f4612a2503551443ea885db5ff0b09895841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:41 +0000
Subject: [PATCH 034/100] fix: remove also partially written dummy sources

---
 specfile/spec_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f3e4675..31025d8 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -107,6 +107,11 @@ class SpecParser:
             List of paths to each created dummy source.
         """
 
+        def remove(path):
+            # the file could be missing or it could have been removed in the meantime
+            with contextlib.suppress(OSError):
+                path.unlink()
+
         def write_magic(path, magic):
             # create a file with a signature matching what RPM expects for this particular
             # file type; this affects how %setup and %patch macros are expanded
@@ -120,6 +125,7 @@ class SpecParser:
                     path.write_bytes(MAGIC_LENGTH * b"\x00")
             except (FileNotFoundError, OSError, PermissionError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                remove(path)
                 return False
             return True
 
@@ -162,12 +168,13 @@ class SpecParser:
                     path.write_text("DUMMY")
                 except (FileNotFoundError, OSError, PermissionError):
                     logger.warning(f"Failed to create a dummy source: {path}")
+                    remove(path)
                 else:
                     dummy_sources.append(path)
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                path.unlink()
+                remove(path)
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From b33fdaae1673fa2969389178766abdfdb8880093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 035/100] fix: do not truncate the spec file when its content
 can't be encoded

---
 specfile/specfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 8e0d066..9726a99 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -186,7 +186,8 @@ class Specfile:
 
     def save(self) -> None:
         """Saves the spec file content."""
-        self.path.write_text(str(self), encoding="utf8", errors="surrogateescape")
+        content = str(self).encode("utf8", errors="surrogateescape")
+        self.path.write_bytes(content)
 
     def expand(
         self,
-- 
2.43.0


From cebf65777bd94a4358e48e8c237b15c1602e1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:54 +0000
Subject: [PATCH 036/100] fix: make RPM errors with non-UTF-8 bytes presentable

---
 specfile/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..9f79a5c 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,10 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
                 return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+        return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
 class MacroRemovalException(SpecfileException):
-- 
2.43.0


From a2d4128116bf9eb3ae041d94cc45b7ab4b760566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:54 +0000
Subject: [PATCH 037/100] fix: do not fail to list macros with non-UTF-8 bytes
 in their bodies

---
 specfile/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 75a5069..dacef32 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -128,7 +128,7 @@ class Macros:
         """
         with capture_stderr() as stderr:
             rpm.expandMacro("%dump")
-        return cls._parse([line.decode() for line in stderr])
+        return cls._parse([line.decode("utf8", "surrogateescape") for line in stderr])
 
     @staticmethod
     def expand(expression: str) -> str:
-- 
2.43.0


From de17f31f24dec6631ed78a0f4461f6bd73f2f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:49 +0000
Subject: [PATCH 038/100] fix: make Tags.insert() accept any negative index
 like a list does

---
 specfile/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index 1215784..0cdc2e9 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -464,6 +464,8 @@ class Tags(UserList[Tag]):
         return first_match
 
     def insert(self, i: int, item: Tag) -> None:
+        if i < 0:
+            i = max(i + len(self.data), 0)
         if i > len(self.data):
             i = len(self.data)
         if i < len(self.data):
-- 
2.43.0


From 91d6e88f8324a2d17a48c56d35d7ae5941317523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:28 +0000
Subject: [PATCH 039/100] fix: find sections with uppercase letters in options

---
 specfile/sections.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 83e10db..6980c22 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -176,7 +176,8 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        normalized_id = self._normalize_id(cast(str, id))
+        return any(s.normalized_id == normalized_id for s in data)
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -211,9 +212,16 @@ class Sections(UserList[Section]):
     def get(self, id: str) -> Section:
         return self.data[self.find(id)]
 
+    @staticmethod
+    def _normalize_id(id: str) -> str:
+        # only name is case-insensitive, options are not
+        name = re.match(r"\S*", id).group(0)  # type: ignore[union-attr]
+        return name.lower() + id[len(name) :]
+
     def find(self, id: str) -> int:
+        normalized_id = self._normalize_id(id)
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalized_id:
                 return i
         raise ValueError
 
-- 
2.43.0


From 0ef7e02a081cf82a8d5d08a7b9493e71d6563733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:28 +0000
Subject: [PATCH 040/100] fix: do not join new content of a section with the
 section header

---
 specfile/sections.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 6980c22..4ae7e7c 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -76,7 +76,12 @@ class Section(collections.UserList):
         data = "".join(f"{i}\n" for i in self.data)
         if self.normalized_id == PREAMBLE:
             return data
-        return f"%{self.id}{self._separator}{data}"
+        separator = self._separator
+        if "\n" not in separator and not data.startswith("%"):
+            # content can continue on the same line only if it is a macro expansion
+            # starting with a newline
+            separator = "\n"
+        return f"%{self.id}{separator}{data}"
 
     @formatted
     def __repr__(self) -> str:
-- 
2.43.0


From d2065723057affed1d373f86401a3a6b4b9b25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:28 +0000
Subject: [PATCH 041/100] fix: recognize %sourcelist and %patchlist regardless
 of case

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 9726a99..25c23b0 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -370,7 +370,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_id == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -411,7 +411,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_id == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 7745d6811b98dd01610c722640f2c435bd788f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:32 +0000
Subject: [PATCH 042/100] fix: make commenting macro definitions out and back
 in work for all styles

---
 specfile/macro_definitions.py | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 4e8e533..611acd5 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -106,15 +106,24 @@ class MacroDefinition:
 
     def __str__(self) -> str:
         ws = self._whitespace
-        dnl = ""
-        sc = "%"
-        if self.commented_out:
-            if self.comment_out_style is CommentOutStyle.DNL:
-                dnl = "%dnl"
-            elif self.comment_out_style is CommentOutStyle.HASH:
-                sc = "#"
+        start = self._get_start()
         macro = "global" if self.is_global else "define"
-        return f"{ws[0]}{dnl}{self._prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
+        return f"{ws[0]}{start}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
+
+    def _get_start(self) -> str:
+        """
+        Gets everything between whitespace preceding the definition
+        and the _global_/_define_ keyword.
+        """
+        escaped = self._prefix.endswith("%")
+        if not self.commented_out:
+            # get rid of the prefix if it comments the definition out
+            return ("" if escaped else self._prefix) + "%"
+        if self.comment_out_style is CommentOutStyle.DNL:
+            return f"%dnl{self._prefix}%"
+        if self.comment_out_style is CommentOutStyle.HASH:
+            return ("" if self._prefix.strip() else self._prefix) + "#"
+        return (self._prefix if escaped and "#" in self._prefix else "# %") + "%"
 
     def get_position(self, container: "MacroDefinitions") -> int:
         """
@@ -136,18 +145,10 @@ class MacroDefinition:
     def get_raw_data(self) -> List[str]:
         result = self._preceding_lines.copy()
         ws = self._whitespace
-        dnl = ""
-        sc = "%"
-        if self.commented_out:
-            if self.comment_out_style is CommentOutStyle.DNL:
-                dnl = "%dnl"
-            elif self.comment_out_style is CommentOutStyle.HASH:
-                sc = "#"
+        start = self._get_start()
         macro = "global" if self.is_global else "define"
         body = (self.body + ws[3]).split("\n")
-        result.append(
-            f"{ws[0]}{dnl}{self._prefix}{sc}{macro}{ws[1]}{self.name}{ws[2]}{body[0]}"
-        )
+        result.append(f"{ws[0]}{start}{macro}{ws[1]}{self.name}{ws[2]}{body[0]}")
         result.extend(body[1:])
         return result
 
-- 
2.43.0


From b1759368876007cf5fec7b637624ce45aeab1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:37 +0000
Subject: [PATCH 043/100] fix: recognize and produce %dnl only where RPM does

---
 specfile/macro_definitions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 611acd5..bdecf9e 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -120,7 +120,8 @@ class MacroDefinition:
             # get rid of the prefix if it comments the definition out
             return ("" if escaped else self._prefix) + "%"
         if self.comment_out_style is CommentOutStyle.DNL:
-            return f"%dnl{self._prefix}%"
+            delimiter = " " if self._prefix.startswith("#") else ""
+            return f"%dnl{delimiter}{self._prefix}%"
         if self.comment_out_style is CommentOutStyle.HASH:
             return ("" if self._prefix.strip() else self._prefix) + "#"
         return (self._prefix if escaped and "#" in self._prefix else "# %") + "%"
@@ -311,7 +312,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             r"""
             ^
             (\s*)                          # optional preceding whitespace
-            (%dnl)?                        # optional DNL prefix
+            (%dnl(?![\w\#*]))?             # optional DNL prefix
             ((?(2).*?%|(?:%|\#(?:.*?%)?))) # starting character with optional prefix
             (global|define)                # scope-defining macro definition
             (\s+)
-- 
2.43.0


From afb00485ae13408aac58767923620851ec83e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:37 +0000
Subject: [PATCH 044/100] fix: reuse an existing context if arguments are equal
 but passed differently

---
 specfile/context_management.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 0f8a3a4..bb6cbfe 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -4,6 +4,7 @@
 import collections
 import contextlib
 import functools
+import inspect
 import io
 import os
 import pickle
@@ -106,8 +107,10 @@ class ContextManager:
         return types.MethodType(self, obj)
 
     def __call__(self, *args: Any, **kwargs: Any) -> GeneratorContextManager:
-        # serialize the passed arguments
-        payload = list(args) + sorted(kwargs.items())
+        # serialize the passed arguments, no matter how they were passed
+        bound_arguments = inspect.signature(self.function).bind(*args, **kwargs)
+        bound_arguments.apply_defaults()
+        payload = list(bound_arguments.args) + sorted(bound_arguments.kwargs.items())
         if payload and self.is_bound:
             # do not attempt to pickle self/cls
             payload[0] = (type(payload[0]), id(payload[0]))
-- 
2.43.0


From 2ef0b9aadec63ecdfe1bd898a6deb90f8c641243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:37 +0000
Subject: [PATCH 045/100] fix: do not reuse a context of an equal but different
 section

---
 specfile/context_management.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index bb6cbfe..c9713c7 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import collections
+import collections.abc
 import contextlib
 import functools
 import inspect
@@ -114,6 +115,11 @@ class ContextManager:
         if payload and self.is_bound:
             # do not attempt to pickle self/cls
             payload[0] = (type(payload[0]), id(payload[0]))
+        # mutable objects that happen to be equal are not interchangeable
+        payload = [
+            p if isinstance(p, collections.abc.Hashable) else (type(p), id(p))
+            for p in payload
+        ]
         key = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         if (
             key in self.generators
-- 
2.43.0


From 99f9d608639bbe55e474c7c0d1bdbabd2a835b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 046/100] fix: make slicing of sources return a list, even if
 it is empty

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..f97a0fe 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From e8c5801ab87942b9c48474ba5bdbc73d8f6b4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 047/100] fix: make inserting sources at negative indexes work
 like with lists

---
 specfile/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index f97a0fe..d0e5faa 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -515,6 +515,8 @@ class Sources(collections.abc.MutableSequence):
         if not self._allow_duplicates and location in self:
             raise DuplicateSourceException(f"{self.prefix} '{location}' already exists")
         items = self._get_items()
+        if i < 0:
+            i = max(i + len(items), 0)
         if i > len(items):
             i = len(items)
         if items:
-- 
2.43.0


From 7a581863fa0bf25cf122fe598cef8b1cb112a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 048/100] fix: number sources in the same way as RPM does

---
 specfile/sources.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index d0e5faa..d69117b 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -362,13 +362,14 @@ class Sources(collections.abc.MutableSequence):
         numbered_pattern = re.compile(rf"{self.prefix}\d+")
         for i, tag in enumerate(self._tags):
             if tag.normalized_name == self.prefix:
-                last_number += 1
-                ts = self.tag_class(tag, last_number)
+                ts = self.tag_class(tag, last_number + 1)
             elif numbered_pattern.match(tag.normalized_name):
                 ts = self.tag_class(tag)
-                last_number = ts.number
             else:
                 continue
+            if tag.valid:
+                # RPM doesn't count sources in false branches of conditions
+                last_number = ts.number
             result.append((ts, self._tags, i))
         return result
 
@@ -385,12 +386,12 @@ class Sources(collections.abc.MutableSequence):
         result = cast(
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
-        last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        last_number = next((s.number for s, _, _ in reversed(result) if s.valid), -1)
+        for sl in self._sourcelists:
+            for i, entry in enumerate(sl):
+                result.append((self.list_class(entry, last_number + 1), sl, i))
+                if entry.valid:
+                    last_number += 1
         return result
 
     def _detect_implicit_numbering(self) -> bool:
-- 
2.43.0


From 8e264aa1ec26e5a3037957afe8e0acaeb0f57620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 049/100] fix: eliminate also duplicates of source numbers that
 are not adjacent

---
 specfile/sources.py | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index d69117b..f85862c 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -5,7 +5,17 @@ import collections
 import re
 import urllib.parse
 from abc import ABC, abstractmethod
-from typing import TYPE_CHECKING, Iterable, List, Optional, Tuple, Union, cast, overload
+from typing import (
+    TYPE_CHECKING,
+    Iterable,
+    List,
+    Optional,
+    Set,
+    Tuple,
+    Union,
+    cast,
+    overload,
+)
 
 from specfile.exceptions import DuplicateSourceException
 from specfile.formatter import formatted
@@ -488,18 +498,24 @@ class Sources(collections.abc.MutableSequence):
         Args:
             start: Starting index, defaults to the first source tag.
         """
-        tags = self._get_tags()
-        if not tags:
-            return
-        tag_sources = list(zip(*tags[start:]))[0]
-        for ts0, ts1 in zip(tag_sources, tag_sources[1:]):
-            if ts1.number == ts0.number:
-                if ts1._number is not None:
-                    ts1._number = ts0.number + 1
-                else:
-                    ts1._tag.name, ts1._tag._separator = self._get_tag_format(
-                        ts1, ts0.number + 1
-                    )
+        tag_sources = [ts for ts, _, _ in self._get_tags()]
+        numbers: Set[int] = set()
+        previous = last_valid = -1
+        for i, ts in enumerate(tag_sources):
+            if ts._number is not None:
+                ts._number = last_valid + 1
+            if i >= start and ts.number in numbers:
+                number = previous + 1
+                while number in numbers:
+                    number += 1
+                ts._tag.name, ts._tag._separator = self._get_tag_format(
+                    ts, number, ts.number_digits or 1
+                )
+                ts._number = None
+            numbers.add(ts.number)
+            previous = ts.number
+            if ts.valid:
+                last_valid = ts.number
 
     def insert(self, i: int, location: str) -> None:
         """
-- 
2.43.0


From 4cf6de8e18911d70a4934ed0671b6a3dd6a60aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 050/100] fix: determine validity of a new sourcelist entry by
 its actual neighbour

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index f85862c..46ee3a8 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -565,7 +565,7 @@ class Sources(collections.abc.MutableSequence):
                     SourcelistEntry(  # type: ignore[arg-type]
                         location,
                         Comments(),
-                        container[index - 1].valid,
+                        source.valid,
                         context=self._context,
                     ),
                 )
-- 
2.43.0


From 152a4cac168b414bd4cbae0307c641ad1df94e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 051/100] fix: respect requested source number also with
 implicit numbering

---
 specfile/sources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index 46ee3a8..f4c0c7b 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -615,6 +615,11 @@ class Sources(collections.abc.MutableSequence):
             i = 0
             index, name, separator = self._get_initial_tag_setup(number)
             valid = self._get_tag_validity()
+        if name == self.prefix:
+            # implicit numbering can't be used if it would lead to a different number
+            last_number = next((t.number for t, _, _ in tags[:i][::-1] if t.valid), -1)
+            if last_number + 1 != number:
+                name = f"{self.prefix}{number}"
         self._tags.insert(
             index,
             Tag(name, location, separator, Comments(), valid, context=self._context),
-- 
2.43.0


From 77503385f5b3d201b03d503f4a672f2321535a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:11 +0000
Subject: [PATCH 052/100] fix: don't consider conditions and macro definitions
 to be sourcelist entries

---
 specfile/sourcelist.py | 47 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..63c8adc 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,7 +2,8 @@
 # SPDX-License-Identifier: MIT
 
 import copy
-from typing import TYPE_CHECKING, Any, Dict, List, Optional, overload
+import re
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Set, Union, overload
 
 from specfile.conditions import process_conditions
 from specfile.formatter import formatted
@@ -121,6 +122,38 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             return self.data[i]
 
+    def __delitem__(self, i: Union[SupportsIndex, slice]) -> None:
+        indices = range(len(self.data))
+        for index in sorted(
+            indices[i] if isinstance(i, slice) else [indices[i]], reverse=True
+        ):
+            preceding_lines = self.data[index].comments._preceding_lines[:]
+            del self.data[index]
+            # preserve preceding lines of the deleted entry but remove empty lines
+            while preceding_lines and not preceding_lines[-1].strip():
+                preceding_lines.pop()
+            if index < len(self.data):
+                self.data[index].comments._preceding_lines[:0] = preceding_lines
+            else:
+                self._remainder[:0] = preceding_lines
+
+    def insert(self, i: int, item: SourcelistEntry) -> None:
+        if i < 0:
+            i = max(i + len(self.data), 0)
+        if i < len(self.data):
+            lines = self.data[i].comments._preceding_lines
+        else:
+            lines = self._remainder
+        self.data.insert(i, item)
+        # do not make the new entry part of a condition block (in case there is one)
+        index = next(
+            (i for i, line in enumerate(lines) if line.lstrip().startswith("%endif")),
+            -1,
+        )
+        if index >= 0:
+            item.comments._preceding_lines[0:0] = lines[: index + 1]
+            del lines[: index + 1]
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
@@ -140,10 +173,18 @@ class Sourcelist(UserList[SourcelistEntry]):
         """
         macro_definitions = MacroDefinitions.parse(list(section))
         lines = process_conditions(list(section), macro_definitions, context)
+        # conditions, macro definitions, comments and empty lines are not entries
+        ignored_regex = re.compile(
+            r"^\s*(#|%(((el)?if(n?(arch|os))?|endif|else|undefine)\b|dnl\s)|$)"
+        )
+        ignored_lines: Set[int] = set()
+        for md in macro_definitions:
+            position = md.get_position(macro_definitions)
+            ignored_lines.update(range(position, position + len(md.body.split("\n"))))
         data = []
         buffer: List[str] = []
-        for line, valid in lines:
-            if line and not line.lstrip().startswith("#"):
+        for i, (line, valid) in enumerate(lines):
+            if i not in ignored_lines and not ignored_regex.match(line):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From 34edf33b661575210b42fdc6abe9ed73a64a46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:27 +0000
Subject: [PATCH 053/100] fix: continue implicit numbering of sources from the
 highest number

---
 specfile/sources.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index f4c0c7b..95116ec 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -379,7 +379,8 @@ class Sources(collections.abc.MutableSequence):
                 continue
             if tag.valid:
                 # RPM doesn't count sources in false branches of conditions
-                last_number = ts.number
+                # and implicit numbering continues from the highest number
+                last_number = max(last_number, ts.number)
             result.append((ts, self._tags, i))
         return result
 
@@ -396,7 +397,7 @@ class Sources(collections.abc.MutableSequence):
         result = cast(
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
-        last_number = next((s.number for s, _, _ in reversed(result) if s.valid), -1)
+        last_number = max((s.number for s, _, _ in result if s.valid), default=-1)
         for sl in self._sourcelists:
             for i, entry in enumerate(sl):
                 result.append((self.list_class(entry, last_number + 1), sl, i))
@@ -500,10 +501,10 @@ class Sources(collections.abc.MutableSequence):
         """
         tag_sources = [ts for ts, _, _ in self._get_tags()]
         numbers: Set[int] = set()
-        previous = last_valid = -1
+        previous = highest = -1
         for i, ts in enumerate(tag_sources):
             if ts._number is not None:
-                ts._number = last_valid + 1
+                ts._number = highest + 1
             if i >= start and ts.number in numbers:
                 number = previous + 1
                 while number in numbers:
@@ -515,7 +516,7 @@ class Sources(collections.abc.MutableSequence):
             numbers.add(ts.number)
             previous = ts.number
             if ts.valid:
-                last_valid = ts.number
+                highest = max(highest, ts.number)
 
     def insert(self, i: int, location: str) -> None:
         """
@@ -617,7 +618,7 @@ class Sources(collections.abc.MutableSequence):
             valid = self._get_tag_validity()
         if name == self.prefix:
             # implicit numbering can't be used if it would lead to a different number
-            last_number = next((t.number for t, _, _ in tags[:i][::-1] if t.valid), -1)
+            last_number = max((t.number for t, _, _ in tags[:i] if t.valid), default=-1)
             if last_number + 1 != number:
                 name = f"{self.prefix}{number}"
         self._tags.insert(
-- 
2.43.0


From da5d8bfae8b98509f0691828fad11cf44328cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:04 +0000
Subject: [PATCH 054/100] fix: delete the right sources when using a slice with
 negative step

---
 specfile/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 95116ec..5b1cd58 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -351,7 +351,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for i0 in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[i0]
                 del container[index]
         else:
             _, container, index = items[i]
-- 
2.43.0


From 403c9e6cd7cf948c70d6284bb0b60e8cfcb7dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:32 +0000
Subject: [PATCH 055/100] fix: don't renumber sources that have the same number
 on purpose

---
 specfile/sources.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 5b1cd58..161f805 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -502,20 +502,30 @@ class Sources(collections.abc.MutableSequence):
         """
         tag_sources = [ts for ts, _, _ in self._get_tags()]
         numbers: Set[int] = set()
-        previous = highest = -1
+        # numbers that could have been affected, i.e. not duplicate on purpose
+        affected: Set[int] = set()
+        highest = -1
         for i, ts in enumerate(tag_sources):
+            previous = tag_sources[i - 1] if i > 0 else None
             if ts._number is not None:
                 ts._number = highest + 1
-            if i >= start and ts.number in numbers:
-                number = previous + 1
+            if i > start:
+                duplicate = ts.number in affected or (
+                    ts.number == previous.number and ts.valid and previous.valid
+                )
+            else:
+                duplicate = i == start and ts.number in numbers
+            if duplicate:
+                number = previous.number + 1
                 while number in numbers:
                     number += 1
                 ts._tag.name, ts._tag._separator = self._get_tag_format(
                     ts, number, ts.number_digits or 1
                 )
                 ts._number = None
+            if i == start or i > start and (duplicate or ts._number is not None):
+                affected.add(ts.number)
             numbers.add(ts.number)
-            previous = ts.number
             if ts.valid:
                 highest = max(highest, ts.number)
 
-- 
2.43.0


From e07f6048cc3b80a594ad296f6304716309221a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:43 +0000
Subject: [PATCH 056/100] fix: do not make a new tag part of a condition block
 with indented %endif

---
 specfile/tags.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 0cdc2e9..14fcdcb 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -475,7 +475,8 @@ class Tags(UserList[Tag]):
         self.data.insert(i, item)
         # do not make the new tag part of a condition block (in case there is one)
         index = next(
-            (i for i, line in enumerate(lines) if line.startswith("%endif")), -1
+            (i for i, line in enumerate(lines) if line.lstrip().startswith("%endif")),
+            -1,
         )
         if index >= 0:
             item.comments._preceding_lines[0:0] = lines[: index + 1]
-- 
2.43.0


From 215e69f91b4e3c8e9fc51b68da9734ef189bef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:16 +0000
Subject: [PATCH 057/100] fix: parse %** as a single macro substitution

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 8f91ebb..93a8edc 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,7 +250,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
-- 
2.43.0


From 6e7e619751abe16fc28b3e66d98cb2229cdbe208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 058/100] fix: delete the right positional arguments with a
 negative-step slice

---
 specfile/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/options.py b/specfile/options.py
index d103c6b..b1fa81c 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -142,7 +142,7 @@ class Positionals(collections.abc.MutableSequence):
 
         items = self._get_items()
         if isinstance(i, slice):
-            for index in reversed(items[i]):
+            for index in sorted(items[i], reverse=True):
                 delete(index)
         else:
             delete(items[i])
-- 
2.43.0


From 4e882b4b900d4be9c8f57ccb05b38ba0953d89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 059/100] fix: insert a positional argument at an out of range
 negative index

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index b1fa81c..e8f23c3 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -189,6 +189,8 @@ class Positionals(collections.abc.MutableSequence):
             value: Value of the positional argument.
         """
         items = self._get_items()
+        if i < 0:
+            i = max(0, i + len(items))
         if i > len(items):
             i = len(items)
         if items and i < len(items):
-- 
2.43.0


From 8ba45a273d124274e82ab62a82f1fee9faf27635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 060/100] fix: do not fail on filtering changelog with entries
 without EVR

---
 specfile/changelog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 83266ca..202b8ab 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -279,6 +279,8 @@ class Changelog(UserList[ChangelogEntry]):
         """
 
         def parse_evr(s):
+            if s is None:
+                return EVR(version="0")
             try:
                 return EVR.from_string(s)
             except SpecfileException:
-- 
2.43.0


From 6d415682daa04db2b5113d62ac6233a688c8268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 061/100] fix: recognize extended changelog timestamps with
 zero-padded day of month

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 202b8ab..76ad919 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -114,7 +114,7 @@ class ChangelogEntry:
             [ ]
             ({months})       # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([012]?\d|3[01])  # day of month
             [ ]
             ([01]\d|2[0-3])  # hour
             :
-- 
2.43.0


From e839afd26a44bbb7cb3be84618e0acc982e763d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 062/100] fix: do not mistake an e-mail address for EVR of a
 changelog entry

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 76ad919..991206b 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -90,7 +90,7 @@ class ChangelogEntry:
             ^.*
             \s+                       # preceding whitespace
             ((?P<sb>\[)|(?P<rb>\())?  # optional opening bracket
-            (?P<evr>(\d+:)?\S+-\S+?)  # EVR
+            (?P<evr>(\d+:)?[^\s<>]+-[^\s<>]+?)  # EVR
             (?(sb)\]|(?(rb)\)))       # matching closing bracket
             :?                        # optional colon
             \s*                       # optional following whitespace
-- 
2.43.0


From 3cb2fcd8c572f91cdf1433a3c7727a2aff25c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 063/100] fix: add proper changelog entries to all %changelog
 sections

---
 specfile/specfile.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 25c23b0..7e3d17e 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -506,6 +506,8 @@ class Specfile:
                 determines the appropriate value based on the spec file current
                 _%{epoch}_, _%{version}_, and _%{release}_ values.
         """
+        if author is not None and email is not None:
+            author += f" <{email}>"
         with self.sections() as sections:
             # there could be multiple changelog sections, update all of them
             for section in sections:
@@ -521,20 +523,19 @@ class Specfile:
                     evr = self.expand(evr, extra_macros=[("dist", "")])
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    entry_timestamp = timestamp
+                    if entry_timestamp is None:
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = datetime.datetime.now().astimezone()
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = datetime.datetime.now(
                                 datetime.timezone.utc
                             ).date()
                     if author is None:
                         author = guess_packager()
                         if not author:
                             raise SpecfileException("Failed to auto-detect author")
-                    elif email is not None:
-                        author += f" <{email}>"
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
@@ -545,7 +546,7 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
+                            entry_timestamp,
                             author,
                             entry,
                             evr,
-- 
2.43.0


From f0e67c3e331f9f8ff0ea68f34b937c62cc6b105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:45 +0000
Subject: [PATCH 064/100] fix: don't lose unrelated lines when removing items
 using pop(), remove() or clear()

---
 specfile/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..1d84aeb 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -323,11 +323,31 @@ def split_conditional_macro_expansion(value: str) -> Tuple[str, str, str]:
     return "".join(str(n) for n in node.body), f"%{{{node.prefix}{node.name}:", "}"
 
 
+class _UserList(collections.UserList):
+    """
+    UserList that removes items exclusively using `__delitem__()`, so that subclasses
+    can preserve lines that are tied with an item but are not a part of it.
+    """
+
+    def pop(self, i=-1):
+        item = self.data[i]
+        del self[i]
+        return item
+
+    def remove(self, item):
+        del self[self.data.index(item)]
+
+    def clear(self):
+        del self[:]
+
+
 # Python 3.6-3.8 do not allow creating a generic UserList at runtime.
 # This hack allows type checkers to determine the UserList dunder method return
 # types while still working at runtime.
-if TYPE_CHECKING or sys.version_info >= (3, 9):
+if TYPE_CHECKING:
     UserList = collections.UserList
+elif sys.version_info >= (3, 9):
+    UserList = _UserList
 else:
     # UserList[...] always returns a UserList
-    UserList = collections.defaultdict(lambda: collections.UserList)
+    UserList = collections.defaultdict(lambda: _UserList)
-- 
2.43.0


From ea253b35e83a3f50118e0023b7e2f4ea8052b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:45 +0000
Subject: [PATCH 065/100] fix: do not consider escaped percent sign to be a
 start of a %prep macro

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 931f296..024e53a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -363,7 +363,7 @@ class Prep(collections.abc.Container):
             New instance of `Prep` class.
         """
         macro_regex = re.compile(
-            r"(?P<m>%(setup|patch\d*|autopatch|autosetup))(?P<d>\s*)(?P<o>.*?)$"
+            r"(?<!%)(?:%%)*(?P<m>%(setup|patch\d*|autopatch|autosetup))(?P<d>\s*)(?P<o>.*?)$"
         )
         data = []
         buffer: List[str] = []
-- 
2.43.0


From ca2fea4848a3ceee3e1bcae5c02f0b0f5ed54e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:27 +0000
Subject: [PATCH 066/100] fix: make sure an updated value expands to the
 requested value

---
 specfile/specfile.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 7e3d17e..757acfb 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -14,6 +14,7 @@ import rpm
 from specfile.changelog import Changelog, ChangelogEntry, guess_packager
 from specfile.context_management import ContextManager
 from specfile.exceptions import (
+    RPMException,
     SourceNumberException,
     SpecfileException,
     UnterminatedMacroException,
@@ -905,6 +906,15 @@ class Specfile:
                 tag = tags.get(entity.name, entity.position)
                 if entity.updated:
                     tag.value = entity.value
+        try:
+            if result != requested_value and self.expand(result) != self.expand(
+                requested_value
+            ):
+                # the substitutions can't be preserved
+                return requested_value
+        except RPMException:
+            # the spec file can't be parsed, there is no way to check the result
+            pass
         return result
 
     def update_tag(
-- 
2.43.0


From 6a21b3b040d7e80fba871f17b1cfacf479c99134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:37 +0000
Subject: [PATCH 067/100] fix: bump only a release macro that is actually in
 effect

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 757acfb..b47edae 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1046,6 +1046,8 @@ class Specfile:
 
         with self.macro_definitions() as macro_definitions:
             for md in macro_definitions:
+                if md.commented_out or not md.valid:
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From 32e1fd7216710f730e7a824af63742bc45822e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:22 +0000
Subject: [PATCH 068/100] fix: make hash of EVR consistent with equality

---
 specfile/utils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 1d84aeb..b5ecb01 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -24,8 +24,22 @@ class EVR(collections.abc.Hashable):
         self.version = version
         self.release = release
 
+    @staticmethod
+    def _segments(label: str) -> Tuple[str, ...]:
+        """Returns segments of a label that are significant for comparison in RPM."""
+        return tuple(
+            s.lstrip("0") or "0" for s in re.findall(r"[0-9]+|[A-Za-z]+|[~^]", label)
+        )
+
+    def _evr_key(self) -> tuple:
+        return (
+            self.epoch,
+            self._segments(self.version or "0"),
+            self._segments(self.release),
+        )
+
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        return self._evr_key()
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +110,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return (self.name, *self._evr_key())
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +187,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return (self.name, *self._evr_key(), self.arch)
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From 9f1c64718575e2d2a0dd53b869499a9d3aba6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:22 +0000
Subject: [PATCH 069/100] fix: do not set release to None when parsing NEVRA
 without release

---
 specfile/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index b5ecb01..3262426 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -253,7 +253,7 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a)
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From b9c2b2782702b1e77f43330304d04be39ce3e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:44 +0000
Subject: [PATCH 070/100] fix: do not let processing of conditions alter the
 macro context of a spec file

---
 specfile/conditions.py  | 7 +++++++
 specfile/spec_parser.py | 5 +++++
 specfile/specfile.py    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 17d5c42..ea329f8 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -88,6 +88,9 @@ def process_conditions(
         expand.skip_parsing = True
         return result
 
+    # expanding these constructs repeatedly could alter the global macro context
+    side_effect_regex = re.compile(r"%(define|global|undefine)\b|%\{(load|lua):")
+    context_altered = False
     excluded_lines = []
     if macro_definitions:
         for md in macro_definitions:
@@ -125,6 +128,8 @@ def process_conditions(
         expanded_line = line
         # RPM doesn't expand lines in false branches
         if branches[-1]:
+            if side_effect_regex.search(line):
+                context_altered = True
             try:
                 expanded_line = expand(line)
             except RPMException:
@@ -169,4 +174,6 @@ def process_conditions(
             else:
                 branches.append(branch)
                 satisfied.append(branch)
+    if context and context_altered:
+        context.invalidate_macro_context()
     return result
diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 31025d8..f6c2c84 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -356,6 +356,11 @@ class SpecParser:
             # do a full parse with dummy sources
             return get_rpm_spec(content, rpm.RPMSPEC_ANYARCH), tainted
 
+    @staticmethod
+    def invalidate() -> None:
+        """Makes sure that nothing from the last parse performed is going to be reused."""
+        SpecParser._last_parse_hash = None
+
     def parse(
         self,
         content: str,
diff --git a/specfile/specfile.py b/specfile/specfile.py
index b47edae..73892b3 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -213,6 +213,13 @@ class Specfile:
             self._parser.parse(str(self), extra_macros)
         return Macros.expand(expression)
 
+    def invalidate_macro_context(self) -> None:
+        """
+        Makes sure that the spec file is parsed again, and the global macro context
+        is thus refreshed, before the next expansion is performed.
+        """
+        self._parser.invalidate()
+
     def get_active_macros(self) -> List[Macro]:
         """
         Gets active macros in the context of the spec file.
-- 
2.43.0


From ed230feb5deea8f9b114576e60046438a69b4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 071/100] fix: do not reuse a parse after another instance has
 been deleted

---
 specfile/spec_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f6c2c84..19311a0 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -62,6 +62,11 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
+    def __del__(self) -> None:
+        # deleting a rpm.spec instance destroys global lua tables that could be currently
+        # used by another `SpecParser` instance, see `_do_parse()` for details
+        self.invalidate()
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
-- 
2.43.0


From af601ede32b243b87fd7bd149ed265b301b8523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:32 +0000
Subject: [PATCH 072/100] fix: do not remove dangling symlinks when parsing

---
 specfile/spec_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 19311a0..3e68fe3 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -112,6 +112,11 @@ class SpecParser:
             List of paths to each created dummy source.
         """
 
+        def get_path(filename):
+            # resolve symlinks, so that a dangling symlink is not removed
+            # instead of the dummy source created in the place it points to
+            return Path(os.path.realpath(str(self.sourcedir / filename)))
+
         def remove(path):
             # the file could be missing or it could have been removed in the meantime
             with contextlib.suppress(OSError):
@@ -151,8 +156,8 @@ class SpecParser:
                 filename = get_filename_from_location(source)
                 if not filename:
                     continue
-                path = self.sourcedir / filename
-                if path.exists():
+                path = get_path(filename)
+                if os.path.exists(path):
                     continue
                 for ext, magic in SIGNATURES:
                     if filename.endswith(ext):
@@ -166,8 +171,8 @@ class SpecParser:
                 filename = get_filename_from_location(source)
                 if not filename:
                     continue
-                path = self.sourcedir / filename
-                if path.exists():
+                path = get_path(filename)
+                if os.path.exists(path):
                     continue
                 try:
                     path.write_text("DUMMY")
-- 
2.43.0


From f7e22524810745ffcc3b312a90eead3804984661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:32 +0000
Subject: [PATCH 073/100] fix: do not fail when force-parsing a spec file
 referring to a nonexistent directory

---
 specfile/spec_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 3e68fe3..de18204 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -251,6 +251,13 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(path):
+            try:
+                return path.parent.samefile(self.sourcedir)
+            except OSError:
+                # the parent directory doesn't exist
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -273,7 +280,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -295,7 +302,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -308,7 +315,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From 36b70e950e0fe89f3cc93a133158399fcb80a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:27 +0000
Subject: [PATCH 074/100] fix: do not fail when force-parsing a spec file with
 an unterminated macro

---
 specfile/spec_parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index de18204..183aa17 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -258,6 +258,16 @@ class SpecParser:
                 # the parent directory doesn't exist
                 return False
 
+        def flatten(value):
+            try:
+                return list(ValueParser.flatten(ValueParser.parse(value)))
+            except UnterminatedMacroException:
+                # the macro could be in a false branch of a condition, skip the line
+                lines = value.splitlines()
+                if len(lines) == 1:
+                    return []
+                return [node for line in lines for node in flatten(line)]
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -271,7 +281,7 @@ class SpecParser:
                     # break parsing, we can skip this tag
                     continue
                 refs = []
-                for node in ValueParser.flatten(ValueParser.parse(tag.value)):
+                for node in flatten(tag.value):
                     if isinstance(node, ShellExpansion):
                         for m in source_ref_regex.finditer(node.body):
                             refs.append(m.group(0))
@@ -309,7 +319,7 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            for node in flatten(content):
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From a8dee0b2f7b69106a09b7b2daf45341477f587b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:27 +0000
Subject: [PATCH 075/100] fix: do not fail when force-parsing a spec file
 ending with a backslash

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 183aa17..5cb9a6b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -305,7 +305,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From dd25f6c9d4661904fd4c58aef56ae1ad478f0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:27 +0000
Subject: [PATCH 076/100] fix: force-parse also spec files including files that
 are not listed as sources

---
 specfile/spec_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 5cb9a6b..bc3fe13 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -362,7 +362,8 @@ class SpecParser:
                     )
                     # spec.sources contains also previously collected
                     # non empty sources (if any), remove them
-                    sources = {s for s, _, _ in spec.sources} - non_empty_sources
+                    sources |= {s for s, _, _ in spec.sources}
+                    sources -= non_empty_sources
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From ba8a9e5dda7d3b9b290cba6a5b73d5b6a424d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:27 +0000
Subject: [PATCH 077/100] fix: do not truncate RPM error messages

---
 specfile/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 9f79a5c..7271a5e 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -19,7 +19,7 @@ class RPMException(SpecfileException):
         for rline in self.stderr:
             line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
+                return line[len("error:") :].strip()
         return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
-- 
2.43.0


From b9c1cfdc3f6a95d1dfeeff42ec3b4131fd973b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:33 +0000
Subject: [PATCH 078/100] fix: do not remove symlink loops when parsing

---
 specfile/spec_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index bc3fe13..72f90cb 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -114,7 +114,8 @@ class SpecParser:
 
         def get_path(filename):
             # resolve symlinks, so that a dangling symlink is not removed
-            # instead of the dummy source created in the place it points to
+            # instead of the dummy source created in the place it points to;
+            # only a link that is a part of a loop remains a link
             return Path(os.path.realpath(str(self.sourcedir / filename)))
 
         def remove(path):
@@ -157,7 +158,7 @@ class SpecParser:
                 if not filename:
                     continue
                 path = get_path(filename)
-                if os.path.exists(path):
+                if os.path.lexists(path):
                     continue
                 for ext, magic in SIGNATURES:
                     if filename.endswith(ext):
@@ -172,7 +173,7 @@ class SpecParser:
                 if not filename:
                     continue
                 path = get_path(filename)
-                if os.path.exists(path):
+                if os.path.lexists(path):
                     continue
                 try:
                     path.write_text("DUMMY")
-- 
2.43.0


From bc31e1f12549051b2c75661833bdcae1509220a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:16 +0000
Subject: [PATCH 079/100] fix: keep the parser usable after parsing has been
 interrupted

---
 specfile/spec_parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 72f90cb..e61bb3a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -422,13 +422,12 @@ class SpecParser:
         if self.spec and parse_hash == SpecParser._last_parse_hash:
             # none of the input parameters has changed, no need to parse again
             return
-        if self.spec:
-            # workaround RPM lua tables feature/bug, see above for details
-            del self.spec
+        # workaround RPM lua tables feature/bug, see above for details
+        self.spec = None
         try:
             try:
                 self.spec, self.tainted = self._do_parse(content, extra_macros)
-            except Exception:
+            except BaseException:
                 SpecParser._last_parse_hash = None
                 raise
             else:
-- 
2.43.0


From 352d46b41dd5d7db88d9c53a938142f40b2f0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 080/100] fix: do not confuse strings with placeholders when
 formatting expressions

---
 specfile/formatter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/formatter.py b/specfile/formatter.py
index 6dd8811..8f17b4c 100644
--- a/specfile/formatter.py
+++ b/specfile/formatter.py
@@ -108,8 +108,11 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
             if not index:
                 raise
             value = lines[e.lineno - 1][e.offset - 1 : index]
-            # convert the value to a string literal
-            placeholder = repr(value)
+            # convert the value to a string literal that doesn't occur anywhere else
+            literal = value
+            while repr(literal) in expression:
+                literal = f"<{literal}>"
+            placeholder = repr(literal)
             placeholders.append((placeholder, value))
             lines[e.lineno - 1] = (
                 lines[e.lineno - 1][: e.offset - 1]
-- 
2.43.0


From 0f6e1410cc513f35c62573879afba3e4a69f1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 081/100] fix: raise SpecfileException when formatting
 unsupported function calls

---
 specfile/formatter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/formatter.py b/specfile/formatter.py
index 8f17b4c..4b7d9d5 100644
--- a/specfile/formatter.py
+++ b/specfile/formatter.py
@@ -49,6 +49,10 @@ def format_expression(expression: str, line_length_threshold: int = 80) -> str:
                 items = [(fmt(k, 0), v) for k, v in zip(node.keys, node.values)]
                 delimiter = ": "
             elif isinstance(node, ast.Call):
+                if not isinstance(node.func, ast.Name) or not all(
+                    kw.arg for kw in node.keywords
+                ):
+                    raise SpecfileException("Unsupported function call")
                 start, end = f"{node.func.id}(", ")"
                 items = [(None, a) for a in node.args] + [
                     (kw.arg, kw.value) for kw in node.keywords
-- 
2.43.0


From c3d546451f775874254aa6c4b29ddb4771d34d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 082/100] fix: consider positional arguments when comparing
 options

---
 specfile/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index e8f23c3..2e5dbb8 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -254,6 +254,11 @@ class Options(collections.abc.MutableMapping):
     def __repr__(self) -> str:
         return f"Options({self._tokens!r}, {self.optstring!r}, {self.defaults!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Options) and self.positional != other.positional:
+            return False
+        return super().__eq__(other)
+
     def __str__(self) -> str:
         return "".join(str(t) for t in self._tokens)
 
-- 
2.43.0


From 95125d1f58bd1b5dfd160227d5f2cddaa5035294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:43 +0000
Subject: [PATCH 083/100] fix: do not consider sections with different names or
 options equal

---
 specfile/sections.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 4ae7e7c..83f439b 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -83,6 +83,11 @@ class Section(collections.UserList):
             separator = "\n"
         return f"%{self.id}{separator}{data}"
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Section) and self.normalized_id != other.normalized_id:
+            return False
+        return super().__eq__(other)
+
     @formatted
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From a8f2fac6068cfbd43932286aaf23dc7a87252705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 084/100] fix: do not ignore excess items when assigning to a
 slice of comments

---
 specfile/tags.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 14fcdcb..8629829 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -133,11 +133,20 @@ class Comments(UserList[Comment]):
 
     def __setitem__(self, i, item):
         if isinstance(i, slice):
-            for i0, i1 in enumerate(range(len(self.data))[i]):
-                if isinstance(item[i0], str):
-                    self.data[i1].text = item[i0]
-                else:
-                    self.data[i1] = item[i0]
+            comments = self.data[i]
+            items = list(item)
+            # preserve existing comments (and their prefixes) when assigning strings
+            self.data[i] = [
+                (
+                    value
+                    if not isinstance(value, str)
+                    else comments[i0] if i0 < len(comments) else Comment(value)
+                )
+                for i0, value in enumerate(items)
+            ]
+            for comment, value in zip(comments, items):
+                if isinstance(value, str):
+                    comment.text = value
         else:
             if isinstance(item, str):
                 self.data[i].text = item
-- 
2.43.0


From 4e981d6e7baf280d8c3b9a4c9d316189a965cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 085/100] fix: support resizing when assigning to a slice of
 sources

---
 specfile/sources.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 161f805..9effc7b 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -343,8 +343,16 @@ class Sources(collections.abc.MutableSequence):
     def __setitem__(self, i, item):
         items = self._get_items()
         if isinstance(i, slice):
-            for i0, i1 in enumerate(range(len(items))[i]):
-                items[i1][0].location = item[i0]
+            indices = range(len(items))[i]
+            locations = list(item)
+            if len(indices) != len(locations) and indices.step != 1:
+                raise ValueError("Extended slices can't be resized")
+            for index, location in zip(indices, locations):
+                items[index][0].location = location
+            for index in reversed(indices[len(locations) :]):
+                del self[index]
+            for i0, location in enumerate(locations[len(indices) :]):
+                self.insert(indices.start + len(indices) + i0, location)
         else:
             items[i][0].location = item
 
-- 
2.43.0


From d17155f51e70376cdc57ed11513aac2d944dab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:29 +0000
Subject: [PATCH 086/100] fix: support resizing when assigning to a slice of
 positional arguments

---
 specfile/options.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 2e5dbb8..fe4e311 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -123,8 +123,16 @@ class Positionals(collections.abc.MutableSequence):
     def __setitem__(self, i, item):
         items = self._get_items()
         if isinstance(i, slice):
-            for i0, i1 in enumerate(range(len(items))[i]):
-                self._options._tokens[items[i1]].value = str(item[i0])
+            indices = range(len(items))[i]
+            values = list(item)
+            if len(indices) != len(values) and indices.step != 1:
+                raise ValueError("Extended slices can't be resized")
+            for index, value in zip(indices, values):
+                self._options._tokens[items[index]].value = str(value)
+            for index in reversed(indices[len(values) :]):
+                del self[index]
+            for i0, value in enumerate(values[len(indices) :]):
+                self.insert(indices.start + len(indices) + i0, value)
         else:
             self._options._tokens[items[i]].value = str(item)
 
-- 
2.43.0


From 8f1b40ab0f004e1b44a2586ca5f85fb02809dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:01 +0000
Subject: [PATCH 087/100] fix: do not ignore macros with empty body when
 dumping macros

---
 specfile/macros.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index dacef32..4204c23 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -88,7 +88,7 @@ class Macros:
         # last line contains only summary
         dump.pop()
         macro_regex = re.compile(
-            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?\t(?P<b>.*)$"
+            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?(\t(?P<b>.*))?$"
         )
         result = []
         while dump:
@@ -104,7 +104,7 @@ class Macros:
                     Macro(
                         m.group("n"),
                         m.group("o"),
-                        m.group("b"),
+                        m.group("b") or "",
                         MacroLevel(int(m.group("l"))),
                         m.group("u") == "=",
                     )
-- 
2.43.0


From c58224fbacd6aea6c3e3d58f493f9196ae278e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:43 +0000
Subject: [PATCH 088/100] fix: remove all definitions of a macro even if one of
 them expands to itself

---
 specfile/macros.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 4204c23..c170c9d 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -169,7 +169,11 @@ class Macros:
         while retry < MAX_REMOVAL_RETRIES:
             rpm.delMacro(macro)
             try:
-                if cls.expand(f"%{{{macro}}}") == f"%{{{macro.replace('%%', '%')}}}":
+                if (
+                    cls.expand(f"%{{{macro}}}") == f"%{{{macro.replace('%%', '%')}}}"
+                    # the macro could expand to its own literal representation
+                    and cls.expand(f"%{{?{macro}:1}}") != "1"
+                ):
                     break
             except RPMException:
                 # the macro can't be expanded, but it still exists
-- 
2.43.0


From c4f97620fd3fa890f824a338bec1c9250fe26b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:15 +0000
Subject: [PATCH 089/100] fix: do not fail to guess the packager if the user is
 unknown to the system

---
 specfile/changelog.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 991206b..bbdaeac 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -367,8 +367,15 @@ class Changelog(UserList[ChangelogEntry]):
 
 
 def _getent_name() -> str:
-    username = getpass.getuser()
-    pwd_struct = pwd.getpwnam(username)
+    try:
+        username = getpass.getuser()
+    except (KeyError, OSError):
+        return ""
+    try:
+        pwd_struct = pwd.getpwnam(username)
+    except KeyError:
+        # the user is unknown to the system
+        return username
     # Use the plain username if the name field is empty
     return pwd_struct.pw_gecos or username
 
-- 
2.43.0


From 7d85429957a952a5f81680c054a2190cd5e31fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:18 +0000
Subject: [PATCH 090/100] fix: do not rely on garbage collection timing to
 avoid reusing a destroyed parse

---
 specfile/spec_parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index e61bb3a..b3bba5f 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -9,6 +9,7 @@ import os
 import pickle
 import re
 import tempfile
+import weakref
 from pathlib import Path
 from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 
@@ -46,6 +47,9 @@ class SpecParser:
     # hash of input parameters to the last parse performed
     _last_parse_hash = None
 
+    # reference to the instance that performed the last parse
+    _last_parse_instance: Optional["weakref.ref[SpecParser]"] = None
+
     def __init__(
         self,
         sourcedir: Path,
@@ -62,11 +66,6 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
-    def __del__(self) -> None:
-        # deleting a rpm.spec instance destroys global lua tables that could be currently
-        # used by another `SpecParser` instance, see `_do_parse()` for details
-        self.invalidate()
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
@@ -422,8 +421,13 @@ class SpecParser:
         if self.spec and parse_hash == SpecParser._last_parse_hash:
             # none of the input parameters has changed, no need to parse again
             return
-        # workaround RPM lua tables feature/bug, see above for details
+        # workaround RPM lua tables feature/bug, see above for details; make sure that no other
+        # instance keeps its rpm.spec instance, it could be deleted any time after this parse
+        instance = SpecParser._last_parse_instance and SpecParser._last_parse_instance()
+        if instance is not None:
+            instance.spec = None
         self.spec = None
+        SpecParser._last_parse_instance = weakref.ref(self)
         try:
             try:
                 self.spec, self.tainted = self._do_parse(content, extra_macros)
-- 
2.43.0


From a7ecf3dac5aac2527f291d34da9cc1342b8630d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 091/100] fix: split the parsed spec file into lines only at
 newlines

---
 specfile/specfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 73892b3..898a79f 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -282,7 +282,10 @@ class Specfile:
     @property
     def parsed_sections(self) -> Sections:
         """Parsed spec file sections."""
-        return Sections.parse(self.rpm_spec.parsed.splitlines())
+        lines = self.rpm_spec.parsed.split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return Sections.parse(lines)
 
     @ContextManager
     def tags(
-- 
2.43.0


From 4191ef93bc2289e10d02832f5f435a5730f62336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:35 +0000
Subject: [PATCH 092/100] fix: recognize macro definitions without whitespace
 before a line break

---
 specfile/macro_definitions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index bdecf9e..3ee564e 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -108,7 +108,8 @@ class MacroDefinition:
         ws = self._whitespace
         start = self._get_start()
         macro = "global" if self.is_global else "define"
-        return f"{ws[0]}{start}{macro}{ws[1]}{self.name}{ws[2]}{self.body}{ws[3]}"
+        delimiter = self._get_body_delimiter()
+        return f"{ws[0]}{start}{macro}{ws[1]}{self.name}{delimiter}{self.body}{ws[3]}"
 
     def _get_start(self) -> str:
         """
@@ -126,6 +127,13 @@ class MacroDefinition:
             return ("" if self._prefix.strip() else self._prefix) + "#"
         return (self._prefix if escaped and "#" in self._prefix else "# %") + "%"
 
+    def _get_body_delimiter(self) -> str:
+        """Gets whitespace between the name and the body of the definition."""
+        if not self._whitespace[2] and not self.body.startswith("\\"):
+            # whitespace is not necessary only if the body begins on the next line
+            return " "
+        return self._whitespace[2]
+
     def get_position(self, container: "MacroDefinitions") -> int:
         """
         Gets position of this macro definition in the spec file.
@@ -149,7 +157,8 @@ class MacroDefinition:
         start = self._get_start()
         macro = "global" if self.is_global else "define"
         body = (self.body + ws[3]).split("\n")
-        result.append(f"{ws[0]}{start}{macro}{ws[1]}{self.name}{ws[2]}{body[0]}")
+        delimiter = self._get_body_delimiter()
+        result.append(f"{ws[0]}{start}{macro}{ws[1]}{self.name}{delimiter}{body[0]}")
         result.extend(body[1:])
         return result
 
@@ -317,7 +326,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             (global|define)                # scope-defining macro definition
             (\s+)
             (\w+(?:\(.*?\))?)              # macro name with optional arguments in parentheses
-            (\s+)
+            (\s+|(?=\\$))                 # whitespace is not necessary before a line break
             (.*?)                          # macro body
             (\s*|\\)                       # optional following whitespace or a backslash indicating
                                            # that the macro body continues on the next line
-- 
2.43.0


From 340996b8445759f7482dd86f8694da6028ef294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:44 +0000
Subject: [PATCH 093/100] fix: end the name of a bracketed macro at the first
 space

A colon in arguments of a parametric macro call, e.g. %{foo a:b},
doesn't make it a built-in or a conditional expansion.
---
 specfile/value_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 93a8edc..c3ed155 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -283,7 +283,9 @@ class ValueParser:
             elif value[start + 1] == "[":
                 result.append(ExpressionExpansion(value[start + 2 : end - 1]))
             elif value[start + 1] == "{":
-                if ":" in value[start:end]:
+                # macro name ends with the first space or colon,
+                # anything following a space is an argument
+                if re.match(r"[^ :]*:", value[start + 2 : end - 1]):
                     condition, body = value[start + 2 : end - 1].split(":", maxsplit=1)
                     tokens = re.split(r"^([?!]*)", condition, maxsplit=1)
                     prefix = tokens[0 if len(tokens) == 1 else 1]
-- 
2.43.0


From f4d35d52ca4cf940317860fe88fd7a7d6ba27e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:45 +0000
Subject: [PATCH 094/100] fix: ignore whitespace around the argument of
 %include

A file that is missing in sourcedir was not faked if its path was followed by whitespace
or was on an indented continuation line.
---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index b3bba5f..56c8a2d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -310,7 +310,7 @@ class SpecParser:
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
                 # even though it failed, populated the macro context
-                source = Path(Macros.expand(arg))
+                source = Path(Macros.expand(arg).strip())
                 # ignore files outside of sourcedir
                 if is_in_sourcedir(source):
                     sources.add(source.name)
-- 
2.43.0


From a709948bf8dd8dfc403ab54746810a1de0ab25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:52 +0000
Subject: [PATCH 095/100] fix: don't rely on positions when synchronizing
 updated values

Updating a macro definition with a multiline body shifts whatever follows it.
---
 specfile/specfile.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 898a79f..add9a19 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -767,6 +767,7 @@ class Specfile:
             value: str
             type: Type
             position: int
+            index: int
             disabled: bool = False
             locked: bool = False
             updated: bool = False
@@ -787,9 +788,10 @@ class Specfile:
                         md.body,
                         type(md),
                         md.get_position(macro_definitions),
+                        i,
                         md.commented_out or not expand(md.body),
                     )
-                    for md in macro_definitions
+                    for i, md in enumerate(macro_definitions)
                     if md.valid
                     and not protected_regex.match(md.name)
                     and not md.name.endswith(")")  # skip macro definitions with options
@@ -798,8 +800,8 @@ class Specfile:
         with self.tags() as tags:
             entities.extend(
                 [
-                    Entity(t.name.lower(), t.value, type(t), t.get_position(tags))
-                    for t in tags
+                    Entity(t.name.lower(), t.value, type(t), t.get_position(tags), i)
+                    for i, t in enumerate(tags)
                     if t.valid and not protected_regex.match(t.name)
                 ]
             )
@@ -898,12 +900,12 @@ class Specfile:
             return requested_value
 
         result = update(value, requested_value, position)
-        # synchronize back any changes
+        # synchronize back any changes, rely on indices because positions could change
         with self.macro_definitions() as macro_definitions:
             for entity in entities:
                 if entity.type != MacroDefinition:
                     continue
-                macro_definition = macro_definitions.get(entity.name, entity.position)
+                macro_definition = macro_definitions[entity.index]
                 if entity.updated:
                     macro_definition.body = entity.value
                     macro_definition.commented_out = False
@@ -913,7 +915,7 @@ class Specfile:
             for entity in entities:
                 if entity.type != Tag:
                     continue
-                tag = tags.get(entity.name, entity.position)
+                tag = tags[entity.index]
                 if entity.updated:
                     tag.value = entity.value
         try:
-- 
2.43.0


From 8129b150ea69e9182c9fb9e6f657b35c49fd5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:27 +0000
Subject: [PATCH 096/100] fix: revert updated entities if substitutions can't
 be preserved

A requested value that refers to macros could have made macros refer to themselves
or to macros defined later, breaking the spec file, could have changed the meaning
of the requested value and could have been split in the middle of a macro.
---
 specfile/specfile.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index add9a19..5c7f1ca 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -829,7 +829,11 @@ class Specfile:
                             return True
                 return False
 
-            return traverse(ValueParser.parse(value))
+            try:
+                return traverse(ValueParser.parse(value))
+            except UnterminatedMacroException:
+                # a macro in the new value would be split
+                return True
 
         def update(value, requested_value, position):
             if value == requested_value:
@@ -899,13 +903,24 @@ class Specfile:
             # no match, simply return the requested value
             return requested_value
 
+        try:
+            expected_value = self.expand(requested_value)
+        except RPMException:
+            # the spec file can't be parsed, there is no way to check the result
+            expected_value = None
         result = update(value, requested_value, position)
+        original_definitions = {}
+        original_values = {}
         # synchronize back any changes, rely on indices because positions could change
         with self.macro_definitions() as macro_definitions:
             for entity in entities:
                 if entity.type != MacroDefinition:
                     continue
                 macro_definition = macro_definitions[entity.index]
+                original_definitions[entity.index] = (
+                    macro_definition.body,
+                    macro_definition.commented_out,
+                )
                 if entity.updated:
                     macro_definition.body = entity.value
                     macro_definition.commented_out = False
@@ -916,18 +931,26 @@ class Specfile:
                 if entity.type != Tag:
                     continue
                 tag = tags[entity.index]
+                original_values[entity.index] = tag.value
                 if entity.updated:
                     tag.value = entity.value
+        if expected_value is None:
+            return result
         try:
-            if result != requested_value and self.expand(result) != self.expand(
-                requested_value
-            ):
-                # the substitutions can't be preserved
-                return requested_value
+            if self.expand(result) == expected_value:
+                return result
         except RPMException:
-            # the spec file can't be parsed, there is no way to check the result
+            # the update broke the spec file
             pass
-        return result
+        # the substitutions can't be preserved, revert the changes
+        with self.macro_definitions() as macro_definitions:
+            for index, (body, commented_out) in original_definitions.items():
+                macro_definitions[index].body = body
+                macro_definitions[index].commented_out = commented_out
+        with self.tags() as tags:
+            for index, original_value in original_values.items():
+                tags[index].value = original_value
+        return requested_value
 
     def update_tag(
         self, name: str, value: str, protected_entities: str = ".*name"
-- 
2.43.0


From e5f45e00777624ecb8795c9ed0f2bc2a1a8ee723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:22 +0000
Subject: [PATCH 097/100] fix: consider trailing newline when comparing
 Specfile instances

---
 specfile/specfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 5c7f1ca..9ffa013 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -88,6 +88,7 @@ class Specfile:
             self.autosave == other.autosave
             and self._path == other._path
             and self._lines == other._lines
+            and self._trailing_newline == other._trailing_newline
             and self._parser == other._parser
         )
 
-- 
2.43.0


From a5eb55c57137f21374c4d40924b28d03d3b8b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 098/100] fix: separate positional arguments from section name

A section without options was given a header like '%filesdevel' when
a positional argument was added to it.
---
 specfile/sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 83f439b..58f67b3 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -120,7 +120,7 @@ class Section(collections.UserList):
     def id(self) -> str:
         """ID of the section (name and options, without the leading '%')."""
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if str(self.options) and not self._delimiter:
             self._delimiter = " "
         return self.name + self._delimiter + str(self.options)
 
@@ -128,7 +128,7 @@ class Section(collections.UserList):
     def normalized_id(self) -> str:
         """Normalized ID of the section. All characters of name are lowercased."""
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if str(self.options) and not self._delimiter:
             self._delimiter = " "
         return self.normalized_name + self._delimiter + str(self.options)
 
-- 
2.43.0


From 516432374b937afdd7dabde7f68cfe97f722586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 099/100] fix: don't keep delimiter in ID of a section without
 options

A section could not be found by name after its last option or
positional argument had been deleted.
---
 specfile/sections.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 58f67b3..8ec8060 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -116,21 +116,25 @@ class Section(collections.UserList):
         """Normalized name of the section. All characters are lowercased."""
         return self.name.lower()
 
+    def _get_id(self, name: str) -> str:
+        options = str(self.options)
+        if not options and self.normalized_name != PREAMBLE:
+            # there is nothing to be delimited
+            return name
+        # ensure delimiter is not empty when there are any options
+        if options and not self._delimiter:
+            self._delimiter = " "
+        return name + self._delimiter + options
+
     @property
     def id(self) -> str:
         """ID of the section (name and options, without the leading '%')."""
-        # ensure delimiter is not empty when there are any options
-        if str(self.options) and not self._delimiter:
-            self._delimiter = " "
-        return self.name + self._delimiter + str(self.options)
+        return self._get_id(self.name)
 
     @property
     def normalized_id(self) -> str:
         """Normalized ID of the section. All characters of name are lowercased."""
-        # ensure delimiter is not empty when there are any options
-        if str(self.options) and not self._delimiter:
-            self._delimiter = " "
-        return self.normalized_name + self._delimiter + str(self.options)
+        return self._get_id(self.normalized_name)
 
     @property
     def is_script(self) -> bool:
-- 
2.43.0


From 47f245170823a87794b5632c95e3dcc7a818c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:22 +0000
Subject: [PATCH 100/100] fix: accept texts in all methods of Comments

'+=' with texts resulted in lines that are not comments, 'remove()' and
'count()' didn't find existing texts.
---
 specfile/tags.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 8629829..e14a45f 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -102,6 +102,19 @@ class Comments(UserList[Comment]):
             return item in [c.text for c in self.data]
         return item in self.data
 
+    def __add__(
+        self, other: Union[Iterable[Comment], Iterable[str]]
+    ) -> "Comments":
+        result = Comments(self.data, self._preceding_lines)
+        result.extend(other)
+        return result
+
+    def __iadd__(
+        self, other: Union[Iterable[Comment], Iterable[str]]
+    ) -> "Comments":
+        self.extend(other)
+        return self
+
     @property
     def raw(self) -> List[str]:
         """List of comment texts"""
@@ -171,8 +184,16 @@ class Comments(UserList[Comment]):
             return [c.text for c in self.data].index(item, *args)
         return self.data.index(item, *args)
 
+    def count(self, item: Union[Comment, str]) -> int:
+        if isinstance(item, str):
+            return [c.text for c in self.data].count(item)
+        return self.data.count(item)
+
+    def remove(self, item: Union[Comment, str]) -> None:
+        del self.data[self.index(item)]
+
     def extend(self, other: Union[Iterable[Comment], Iterable[str]]) -> None:
-        for item in other:
+        for item in list(other):
             if isinstance(item, str):
                 item = Comment(item)
             self.data.append(item)
-- 
2.43.0

