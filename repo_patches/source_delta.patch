From 29cffe52d4c8272c1ad12e03f85d6e4f67ac0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 001/127] fix: do not take the !else branch of a true
 !ifdef/!ifndef

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From 8b57f066d046a6c0cafbbec875ba84ef4a2e0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 002/127] fix: accept NOT as the right operand of an operator
 in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..9b43749 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -673,6 +673,9 @@ class BaseParser(object):
             # If this isn't a operator ignore it
             elif not cls._IsOperator(token):
                 expression.append(token)
+            # NOT is a prefix operator, it never ends the operator before it, which is still missing an operand.
+            elif token == "NOT":
+                stack.append(token)
             # If the stack is empty or contains a left parenthesis on top, push the incoming operator onto the stack.
             elif len(stack) == 0 or stack[-1] == "(":
                 stack.append(token)
-- 
2.43.0


From 4948d4bf53941479968ba3e88c66e50e34d96b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 003/127] fix: a doubled NOT in a conditional cancels out

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 9b43749..af4948e 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -640,7 +640,7 @@ class BaseParser(object):
         found_not = False
         for token in tokens:
             if str(token).upper() == "NOT":
-                found_not = True
+                found_not = not found_not
                 continue
             if not found_not:
                 collapsed_tokens.append(token)
-- 
2.43.0


From ecb9d8a714bcc4f9c27f62cacd104a5ea36510a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 004/127] fix: give inverted comparison operators the
 precedence of the operator

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index af4948e..186509c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -720,7 +720,7 @@ class BaseParser(object):
             return 100
         if token == "NOT":  # not is the lowest
             return -2
-        if token == "IN" or token == "==" or token == "!=":
+        if token.removeprefix("!+") in ["IN", "==", "!="]:
             return 1
         return 0
 
-- 
2.43.0


From ff5a69d2dee171197061146cdca0c7beadb7134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 005/127] fix: make FDF defines usable in the section that
 defines them

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..55a0b31 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -131,6 +131,7 @@ class FdfParser(HashFileParser):
                 if sline.count("=") == 1:
                     tokens = sline.replace("DEFINE", "").split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
+                    self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
-- 
2.43.0


From 0b0c4625212d3d8cb57d9c02ba60530591536aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 006/127] fix: resolve paths after a DSC !include relative to
 the including file again

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..9b11c13 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -285,10 +285,12 @@ class DscParser(HashFileParser):
             # we try here so that we can catch exceptions from individual lines
             try:
                 raw_line = lines[index]
+                target_file = self.TargetFilePath
                 (line, add, new_file) = self.__ParseLine(raw_line, file_name=file_name, lineno=index + 1)
                 if len(line) > 0:
                     self.Lines.append(line)
                 self.__ProcessMore(add, file_name=new_file)
+                self.TargetFilePath = target_file
             except Exception as e:
                 # check if we're in no fail mode or not
                 if not self._no_fail_mode:  # if we are, fail
@@ -312,8 +314,10 @@ class DscParser(HashFileParser):
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
             try:
+                target_file = self.TargetFilePath
                 (line, add) = self.__ParseDefineLine(raw_line)
                 self.__ProcessDefines(add)
+                self.TargetFilePath = target_file
             except Exception:
                 # Since we're going to do this in ProcessMore, don't warn people if there's an exception
                 # otherwise, raise the exception and act normally
-- 
2.43.0


From e4f734e7d6c6e3c371aaa12956f08e00d7c4b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 007/127] fix: replace PCDs in !elseif as in !if

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 9b11c13..40ca56a 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -63,7 +63,7 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
+        if line.lower().startswith(("!if", "!elseif")):
             for token in re.split(r"[^\w\.]", line):
                 if token in self.PcdValueDict:
                     line = line.replace(token, self.PcdValueDict[token])
-- 
2.43.0


From ca497cafc148af1e437cbb4ed206434e89b8ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 008/127] fix: strip the indentation of lines that carry a
 comment

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 186509c..55a9cdc 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -882,7 +882,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From 6c835bf483ead10d2a1a59bdab5b4be49deab63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 009/127] fix: keep the other instances of a library class when
 one is listed twice

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 40ca56a..bd78edf 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -358,10 +358,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 742efebdeff03e387d1fcdec3c153a13bac6beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 010/127] fix: do not report PCDs of inactive lines and those
 of the definition pass

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index bd78edf..622b92c 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -489,6 +489,7 @@ class DscParser(HashFileParser):
         file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
         self.PcdValueDict = {}
+        self.Pcds = []
         # reset the parser state before processing more
         self.ResetParserState()
         self._PushTargetFile(sp)
-- 
2.43.0


From 9ed973fccd271834f98fa7d40d25ca83e2dbd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 011/127] fix: match arch specific library scopes for
 components of common sections

The architectures listed in SUPPORTED_ARCHITECTURES keep their (upper) case,
the keys of the scoped library table are lower case: [LibraryClasses.X64] and
[LibraryClasses.X64.PEIM] were never consulted for a [Components] module.
---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..6e1af98 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -182,7 +182,7 @@ class InstancedInfTable(TableGenerator):
 
             # scope for libraries need to contain the MODULE_TYPE also, so we will append it, if it exists
             if "MODULE_TYPE" in infp.Dict:
-                scope += f".{infp.Dict['MODULE_TYPE']}".lower()
+                scope = f"{scope}.{infp.Dict['MODULE_TYPE']}".lower()
 
             inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
 
-- 
2.43.0


From ac26175843032b3c5f432064eaf70749558f23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 012/127] fix: link library instances that serve more than one
 library class

An instance gets one row per component, named after the class it was first
reached by; users that reach it by another class were not linked to it.
---
 edk2toollib/database/tables/instanced_inf_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 6e1af98..d4dd0ac 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -137,13 +137,15 @@ class InstancedInfTable(TableGenerator):
         session.add_all(rows)
         session.commit()
 
+        # A library instance has a single row per component and architecture, even if it is used for multiple classes
         all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
+            (library.path, library.arch, library.component): library
             for library in session.query(InstancedInf).filter_by(env=env_id).all()
         }
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
+            paths = dict.fromkeys(path for _, path in inf["LIBRARIES_USED"])
+            libraries = [all_libraries.get((path, row.arch, row.component)) for path in paths]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
         session.commit()
-- 
2.43.0


From 2e6ccca9d8f712cfbacaa22257c67ff1dbcea365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 013/127] fix: keep fields after | out of the scoped sources
 and libraries of an INF

get_sources() and get_libraries() reported "File.c|MSFT" for such a line.
---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..ca22152 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -284,15 +284,15 @@ class InfParser(HashFileParser):
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(line.partition("|")[0].strip())
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [line.partition("|")[0].strip()]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From 90249fd4c637a825a8d3aa76c29898621386881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 014/127] fix: do not report the opening brace of a structured
 PCD as part of its id

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..45c01ba 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,7 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        self.id = op[3].strip().rstrip("{").strip() if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From 77602226a0a653d65d33d833819a1c4a7e9984b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 015/127] fix: report a flash device that is named like a
 firmware volume

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 55a0b31..98fc4b8 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -144,7 +144,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From a07b09381f42174d5ec11a2f5ca1052026327215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 016/127] fix: do not accept text after a guid as part of it

Only the beginning of the string was matched: surplus digits were accepted and
silently dropped, or made a malformed registry format guid.
---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..f2976f6 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,8 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        guidstring = guidstring.strip().rstrip(";")
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From 2a59b691e1dc5df8106b945f70e457a1f6c08890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 017/127] fix: accept the 0X prefix in ParseGuid

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 55a9cdc..a02769b 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -767,7 +767,7 @@ class BaseParser(object):
         Raises:
             (RuntimeError): if missing any of the 11 parts, or it isn't long enough.
         """
-        entries = line.lstrip(" {").rstrip(" }").split(",")
+        entries = line.lower().lstrip(" {").rstrip(" }").split(",")
         if len(entries) != 11:
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
-- 
2.43.0


From 123aa678394b0aefae47400e2a09a8f5e01f6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 018/127] fix: check the registry format before stripping the
 guid

A string that was not in registry format was accepted after stripping it twice
and turned into a malformed C format guid.
---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index f2976f6..047bb85 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -117,9 +117,9 @@ class GuidParser:
           (Success): guidstring in c format
           (Failure): empty string ''
         """
-        guidstring = guidstring.strip().strip("} {")
         if not cls.is_guid_in_reg_format(guidstring):
             return ""
+        guidstring = guidstring.strip().strip("} {")
 
         GuidList = guidstring.split("-")
         Result = "{"
-- 
2.43.0


From d43008e99f5bab68b3554ccc93d3393ea5fde552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 019/127] fix: do not fail on several levels of nested roots in
 GetContainingModules

---
 edk2toollib/uefi/edk2/path_utilities.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..b536c53 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
-- 
2.43.0


From 2a9890480d16b74a5a7cedf4a68c3e4865c1eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 020/127] fix: do not search for modules of a root above that
 root forever

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index b536c53..fe6778c 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -385,7 +385,7 @@ class Edk2Path(object):
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
             current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            while any(current_dir != path and current_dir.is_relative_to(path) for path in maximum_root_paths):
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From fb282c2bbcfcfc4ac85135eb6ec1f1579cd8e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 021/127] fix: accept the gitignore patterns ** and !

---
 edk2toollib/gitignore_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..d92da86 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -111,7 +111,7 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
     # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() == "/":
+    if pattern.strip("/ ") == "":
         return
 
     directory_only = pattern[-1] == "/"
@@ -121,7 +121,8 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     if pattern[0] == "/":
         pattern = pattern[1:]
     if pattern[0] == "*" and len(pattern) >= 2 and pattern[1] == "*":
-        pattern = pattern[2:]
+        # Nothing but ** matches every name
+        pattern = pattern[2:] if pattern[2:].strip("/ ") else f"*{pattern[2:]}"
         anchored = False
     if pattern[0] == "/":
         pattern = pattern[1:]
-- 
2.43.0


From 6d87699acae0b9a9de4a3e767c9dc3556d47c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 022/127] fix: a negated gitignore character class does not
 match a separator

---
 edk2toollib/gitignore_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index d92da86..f515e0c 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -257,7 +257,7 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
                 stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
                 i = j + 1
                 if stuff[0] == "!":
-                    stuff = "".join(["^", stuff[1:]])
+                    stuff = "".join(["^/", stuff[1:]])
                 elif stuff[0] == "^":
                     stuff = "".join("\\" + stuff)
                 res.append("[{}]".format(stuff))
-- 
2.43.0


From 139a970dea473e881f2c47e3c073d7db8d9a879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 023/127] fix: apply ! patterns for folders when searching
 guids

---
 edk2toollib/gitignore_parser.py    | 2 +-
 edk2toollib/uefi/edk2/guid_list.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index f515e0c..7bc8cf1 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -198,7 +198,7 @@ class IgnoreRule(collections.namedtuple("IgnoreRule_", IGNORE_RULE_FIELDS)):
             rel_path += "." * _count_trailing_symbol(".", abs_path)
         # Path() strips the trailing slash, so we need to preserve it
         # in case of directory-only negation
-        if self.negation and isinstance(abs_path, str) and abs_path[-1] == "/":
+        if self.negation and self.directory_only and isinstance(abs_path, str) and abs_path[-1] == "/":
             rel_path += "/"
         if rel_path.startswith("./"):
             rel_path = rel_path[2:]
diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..8cb4241 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -62,7 +62,8 @@ class GuidList:
         for root, dirs, files in os.walk(folder):
             for d in dirs[:]:
                 fullpath = os.path.join(root, d)
-                if ignore(fullpath):
+                # A trailing slash, as only then patterns like !folder/ apply
+                if ignore(f"{fullpath}/"):
                     logging.debug(f"Ignore folder: {fullpath}")
                     dirs.remove(d)
 
-- 
2.43.0


From 6336a8c6bd53f0b3f45867436d1b855c782b9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 024/127] fix: ignore trailing spaces after gitignore folder
 patterns and short names

---
 edk2toollib/gitignore_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 7bc8cf1..8b9fee5 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -105,6 +105,9 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     else:
         negation = False
+    # Trailing spaces are ignored, but for one that is escaped (see below)
+    stripped = pattern.rstrip(" ")
+    pattern = f"{stripped} " if stripped != pattern and stripped.endswith("\\") else stripped
     # Multi-asterisks not surrounded by slashes (or at the start/end) should
     # be treated like single-asterisks.
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
-- 
2.43.0


From e812e5ca2825219260e7b540e5a594830a13bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 025/127] fix: do not attribute packages and modules to a
 repository whose path is only a prefix

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 edk2toollib/database/tables/package_table.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index d4dd0ac..27e6d62 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From 988303b0b2117be56f8eee89b5cb64865fd90efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 026/127] fix: record license and total lines of sources that
 are already in the database

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..444594e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From fbf0f83e80e69cda6d8961d596add359f8bbc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 027/127] fix: decode signature lists without signatures

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..7240c96 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -659,7 +659,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # a list without any signatures may leave the signature size 0
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From 4062e96531554ca484485b7097cefbf9a302a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 028/127] fix: take the signature size when merging into a list
 without signatures

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 7240c96..79c8d02 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -835,7 +835,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From 9b0c88f84d448000f27e2f6e1384c496bdc67974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 029/127] fix: compute the canonical signature database without
 changing the original

---
 .../uefi/authenticated_variables_structure_support.py    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 79c8d02..4db5a3e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1011,13 +1011,12 @@ class EfiSignatureDatabase(CommonUefiStructure):
         x509eslList = None
 
         for Esl in self.esl_list:
-            if Esl.signature_data_list is None:  # discard empty EfiSignatureLists
+            if not Esl.signature_data_list:  # discard empty EfiSignatureLists
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
-                if sha256esl is None:
-                    sha256esl = Esl  # initialize it
-                else:
-                    sha256esl.MergeSignatureList(Esl)
+                if sha256esl is None:  # initialize it, leaving the lists of self as they are
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)
+                sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
                 if x509eslList is None:
                     x509eslList = [Esl]  # initialize it
-- 
2.43.0


From dcc6733b6770fc9e3ca9590b88691dcbd8101e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 030/127] fix: find duplicate certificates by their content

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 4db5a3e..f5ef31e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1043,7 +1043,9 @@ class EfiSignatureDatabase(CommonUefiStructure):
             for esl in x509eslList:
                 if not canonicalDb.esl_list:
                     canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                elif [data.signature_data for data in esl.signature_data_list] == [
+                    data.signature_data for data in canonicalDb.esl_list[-1].signature_data_list
+                ]:
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
-- 
2.43.0


From a08a6b8191fb36f56c446387d6b7d30a03eeec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 031/127] fix: refuse x509 signatures too small for their owner

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index f5ef31e..330e016 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -183,7 +183,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:  # size of the guid
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
-- 
2.43.0


From e1e3c0a91b4d6cfc32510f9928f15a1fdc28854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 032/127] fix: replace an earlier payload completely

---
 .../uefi/authenticated_variables_structure_support.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 330e016..ae7143e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1405,6 +1405,11 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         end = fs.tell()
         fs.seek(start)
         self.payload_size = end - start
+
+        # forget about an earlier payload
+        self.payload = None
+        self.sig_list_payload = None
+
         if self.payload_size == 0:
             logging.debug("No Payload for this EfiVariableAuthenticated2 Object")
             return
-- 
2.43.0


From 52c8f6de4122b68962d592c545af9f6533c01d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 033/127] fix: refuse a truncated certificate in a buffer

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..befcaca 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -408,7 +408,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if not self._StructSize <= dwLength <= len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From 9e0560d01e0e91c9281bd1ed71458d5460f81a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 034/127] fix: refuse PKCS1 certificates shorter than their
 header

---
 edk2toollib/uefi/wincert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index befcaca..d679087 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,6 +161,9 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid certificate length")
+
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
             raise ValueError("Invalid file stream size")
 
-- 
2.43.0


From 8e594d36324355fbdb05850ae0ab68adeb262567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 035/127] fix: do not read variables past the end of the
 variable store

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..0125832 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -61,9 +61,11 @@ class VariableStore(object):
 
         # Now we're finally ready to read some variables.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
+        var_header_size = self.get_new_var_class().StructSize
         try:
-            while True:
+            while self.rom_file.tell() + var_header_size <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
                 # Seek past the current variable in the store.
-- 
2.43.0


From 8c684241769e299b5b1527767d2630b51a71bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 036/127] fix: do not write variables past the end of the
 variable store

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 0125832..743ec2b 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -110,10 +110,10 @@ class VariableStore(object):
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
-        if var_size > self.var_store_header.Size:
-            raise Exception(
-                "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
-            )
+        # The size of the VarStore includes its header.
+        max_size = self.var_store_header.Size - self.var_store_header.StructSize
+        if var_size > max_size:
+            raise Exception("Total variable size %d is too large to fit in VarStore %d!" % (var_size, max_size))
 
         # Now, we just have to serialize each variable in turn and write them to the mmap buffer.
         var_offset = self.store_base + self.fv_header.HeaderLength + self.var_store_header.StructSize
-- 
2.43.0


From 4c5d129985787bb2ce4b470f41cc31ed477d810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 037/127] fix: refuse capsule and payload headers that extend
 beyond the buffer

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 2 +-
 edk2toollib/uefi/uefi_capsule_header.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..8e7f81f 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -82,7 +82,7 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if not self._StructSize <= HeaderSize <= len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..1e7883e 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -109,7 +109,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if not self._StructSize <= HeaderSize <= len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
-- 
2.43.0


From c8832dd4e600630c2806fce967a30b4952dcd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 038/127] fix: keep the extended part of capsule and payload
 headers when encoding

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 7 ++++++-
 edk2toollib/uefi/uefi_capsule_header.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index 8e7f81f..f9fd14a 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -49,6 +49,7 @@ class FmpPayloadHeaderClass(object):
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
         self.Payload = b""
+        self._ExtendedHeader = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -59,7 +60,10 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        # The header may be larger than its known fields
+        ExtendedSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\0")
+        return FmpPayloadHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -88,6 +92,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 1e7883e..044e3a6 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -63,6 +63,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = self.HeaderSize
         self.Payload = b""
         self.FmpCapsuleHeader = None
+        self._ExtendedHeader = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -88,7 +89,10 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        # The header may be larger than its known fields
+        ExtendedSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self._ExtendedHeader[:ExtendedSize].ljust(ExtendedSize, b"\0")
+        return UefiCapsuleHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -120,6 +124,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
-- 
2.43.0


From 81d2a9110618c10bc882577c1adf67d656c49462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 039/127] fix: forget nested capsule structures of an earlier
 decode

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 044e3a6..4c6a0bf 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -126,6 +126,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = CapsuleImageSize
         self._ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From 2e4f59e0de8847f275304f2426ea83e6a78a083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 040/127] fix: recognize signed images in
 FmpAuthHeaderClass.IsSigned

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From 723ace4a6f26fc1779a9b7194b19b6dce3a296de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 041/127] fix: do not count the items of a decoded FMP capsule
 twice

---
 edk2toollib/uefi/fmp_capsule_header.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..ff18be8 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -294,9 +294,10 @@ class FmpCapsuleHeaderClass(object):
         if Version < self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_HEADER_INIT_VERSION:
             raise ValueError
 
+        # The counts follow as the items are added
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From 16a6748337e5a6d53d4a0c65a5b60ae31f2277bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 042/127] fix: accept policy strings with surrogate pairs

---
 edk2toollib/windows/policy/firmware_policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..1bb5a7d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -368,9 +368,10 @@ class PolicyString:
         if fsOffset:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -386,9 +387,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
-- 
2.43.0


From decd54a4d83a0862f7f06c387f43acd19a8c97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 043/127] fix: do not add a rule that a firmware policy already
 has

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 1bb5a7d..3fa2c23 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,10 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Value types are equal if their type number is."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +358,10 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Policy strings are equal if their text is."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -434,6 +442,10 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Policy values are equal if their type and value are."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 39ccbc7756a6fde1d16eaa10cd6befef5af9da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 044/127] fix: refuse variable policies whose sizes do not add
 up

---
 edk2toollib/uefi/edk2/variable_policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..04d994a 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -224,6 +224,8 @@ class VariablePolicyEntry(object):
             raise ValueError("Unknown structure version!")
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Invalid Size or OffsetToName!")
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
-- 
2.43.0


From b5578363d468cbf4d82bdadd8883920226287a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 045/127] fix: forget the name and lock of an earlier variable
 policy

---
 edk2toollib/uefi/edk2/variable_policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 04d994a..cde2d9e 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -229,9 +229,11 @@ class VariablePolicyEntry(object):
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
 
+        self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
             self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
-- 
2.43.0


From 85a844097a14387e397d02888777a62072da5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 046/127] fix: read policy structures at stream offset zero

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 3fa2c23..b4585ed 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -289,7 +289,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -373,7 +373,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         StringBytes = fs.read(StringLength)
@@ -459,7 +459,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From fc69637d3eeb6528f1325c1eab8178712e7c9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 047/127] fix: make the TPM simulator usable with Python 3

---
 edk2toollib/tpm/tpm2_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..d3a1a20 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -65,13 +65,13 @@ class TpmSimulator(object):
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
+        print("RAW -->: " + bytes(data).hex())
         self.tpmSock.send(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
         data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        print("RAW <--: " + bytes(data).hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From df0913e38fa81459914b2f13163df4ab3b597989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 048/127] fix: wait for all of a TPM simulator response

---
 edk2toollib/tpm/tpm2_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index d3a1a20..f6edaf3 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -66,11 +66,16 @@ class TpmSimulator(object):
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
         print("RAW -->: " + bytes(data).hex())
-        self.tpmSock.send(data)
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
+        data = b""
+        while len(data) < count:
+            part = self.tpmSock.recv(count - len(data))
+            if not part:
+                raise ConnectionError("The TPM simulator closed the connection!")
+            data += part
         print("RAW <--: " + bytes(data).hex())
         return data
 
-- 
2.43.0


From e6db8deba2ce1b46966919b2dba3d5016e153a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 049/127] fix: state the size of a TPM command whose elements
 changed

---
 edk2toollib/tpm/tpm2_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..7ed0796 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -122,6 +122,7 @@ class Tpm2CommandStream(object):
 
     def get_size(self) -> int:
         """Returns the stream size."""
+        self.stream_size = self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
         return self.stream_size
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
@@ -136,4 +137,6 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        # The size of elements may have changed since they were added
+        self.header.update_size(self.get_size())
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0


From b40b1b09571909a0245fbf404b3332df387ef475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 050/127] fix: refuse DMAR structures whose lengths do not add
 up

A structure or device scope of length zero made the parser loop forever.
---
 edk2toollib/acpi/dmar_parser.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..65e2ace 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -37,18 +37,23 @@ class DMARTable(object):
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
 
+            # A struct may neither be empty nor go beyond the table
+            if not 0 < remapping_header.Length <= len(self.data):
+                raise Exception("Remapping struct length does not add up: %d" % remapping_header.Length)
+            struct_data = self.data[: remapping_header.Length]
+
             # Parse remapping struct
             if remapping_header.Type == 0:
-                remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
+                remapping_header = self.DRHDStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 1:
-                remapping_header = self.RMRRStruct(self.data, remapping_header.Length)
+                remapping_header = self.RMRRStruct(struct_data, remapping_header.Length)
                 self.dmar_table.RMRRlist.append(remapping_header)
             elif remapping_header.Type == 2:
-                remapping_header = self.ATSRStruct(self.data, remapping_header.Length)
+                remapping_header = self.ATSRStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 3:
-                remapping_header = self.RHSAStruct(self.data, remapping_header.Length)
+                remapping_header = self.RHSAStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 4:
-                remapping_header = self.ANDDStruct(self.data, remapping_header.Length)
+                remapping_header = self.ANDDStruct(struct_data, remapping_header.Length)
                 self.dmar_table.ANDDCount += 1
             else:
                 print("Reserved remapping struct found in DMAR table")
@@ -493,7 +498,11 @@ class DMARTable(object):
                 print("Reserved Device Scope Type Found")
                 sys.exit(-1)
 
-            number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) / 2
+            # The path is made of pairs of bytes behind the header
+            if self.Length < DMARTable.DeviceScopeHeaderLength or self.Length % 2 != 0:
+                raise Exception("Device scope length does not add up: %d" % self.Length)
+
+            number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) // 2
             offset = 6
             self.Path = list()
             while number_path_entries > 0:
-- 
2.43.0


From 333c6db3062c083ac8c4c17c4de2b73a9239cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 051/127] fix: write DMAR and IVRS tables as well-formed XML

Names of XML elements and attributes do not contain spaces.
---
 edk2toollib/acpi/dmar_parser.py | 8 ++++----
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 65e2ace..6841de3 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -67,7 +67,7 @@ class DMARTable(object):
 
     def toXml(self) -> ET.Element:
         """Converts the object to an xml representation."""
-        root = ET.Element("DMAR Table")
+        root = ET.Element("DMARTable")
         root.append(self.dmar_table.toXml())
         for sub in self.dmar_table.SubStructs:
             root.append(sub.toXml())
@@ -233,7 +233,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -306,7 +306,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -370,7 +370,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..a6d7c3c 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1267,7 +1267,7 @@ class IVRS_TABLE(object):
             xml_item.set("DTESetting", "0x%X" % (self.DTESetting))
 
             xml_item.set("HardwareID", "%s" % (self.HID))
-            xml_item.set("ExtendedDTE Setting", "%s" % (self.CID))
+            xml_item.set("ExtendedDTESetting", "%s" % (self.CID))
             xml_item.set("UniqueIDFormat", "%d" % (self.UIDFormat))
             xml_item.set("UniqueIDLength", "%d" % (self.UIDLength))
             if self.UIDFormat == 0:
-- 
2.43.0


From b490f0ce1c2218135cd8aee1a8c14a1f3eb5cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 052/127] fix: label select entries of an IVRS table

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index a6d7c3c..c2edb43 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -699,7 +699,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From 280fa5d18b43ce990dd5d071618719127605a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 053/127] fix: dump the memory block length of an IVMD
 structure

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index c2edb43..8796940 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -508,7 +508,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
-- 
2.43.0


From f5a56a690a7cbbeb0e57edefcf0177a102f234cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 054/127] fix: forget the previous content when an IVRS
 structure is decoded again

---
 edk2toollib/acpi/ivrs_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 8796940..b64315a 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -32,6 +32,8 @@ class IVRS_TABLE(object):
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
+        self.SubStructs = list()
+        self.IVMD_list = list()
 
         # Start from the end of ACPI header, but store the parsed length for verification
         t_length = self.acpi_header.Length
@@ -304,6 +306,9 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.Reserved = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From bff46fa402dd3c9e67627f595ababb65f3d9de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 055/127] fix: replace the reference at hand, not one in an
 earlier replacement

A value that names a macro which is defined only later put that reference
in front of the line's own, so that the line's own was left as it was.
---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a02769b..b11471b 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -382,8 +382,9 @@ class BaseParser(object):
 
         replace = len(tokens) > 1 and tokens[0].lower() in ["!if", "!elseif"]
         # use line to avoid change by handling above
-        rep = line.count("$")
+        rep = line.count("$(")
         index = 0
+        grown = 0  # length of result beyond that of line, up to index
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
@@ -396,7 +397,10 @@ class BaseParser(object):
                 # prevent circular variable replacement
                 if f"$({token})" in v:
                     v = ""
-                result = result.replace(replacement_token, v, 1)
+                # replace this reference, not an equal one in the text of an earlier replacement
+                at = start + grown
+                result = result[:at] + v + result[at + len(replacement_token) :]
+                grown += len(v) - len(replacement_token)
 
             index = end + 1
             rep = rep - 1
-- 
2.43.0


From f88e10661ec8a06ece4f570aaf806d28e199f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 056/127] fix: do not wait forever for a command whose output
 is not captured

Nobody read the pipe, so that a command stopped as soon as it was full.
---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..8d24f1d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -195,7 +195,7 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From d5f11466db1e8a4ab30f8603eecc6813ac4e2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 057/127] fix: do not wait forever for a command whose output
 cannot be decoded

The reader ended with the error (as it does if the file to write cannot be
opened) but left the pipe open, which then became full. It also
took a line that decodes to nothing for the end of the output.
---
 edk2toollib/utility_functions.py | 38 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 8d24f1d..530fa7a 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,28 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            line = stream.readline()
+            if not line:
+                break
+            s = line.decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # also after an error: otherwise the command waits for a reader
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 74236f00a944093d4b6e76f60b85462604eb2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 058/127] fix: find python scripts with spaces in their path

The quotes were added before the file was looked for.
---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 530fa7a..d2acc8b 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -260,10 +260,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -278,6 +276,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From f46d37326572effe4db47bf92f1783201834c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 059/127] fix: quote the pfx path when signing a catalog

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index d2acc8b..93a1e9d 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -368,7 +368,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From 8cf53bdfc07ee54a3dc5bbbbd9a3cf93237671f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 060/127] fix: align the ascii column of hexdump without
 separator or offset

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 93a1e9d..5c98413 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -547,7 +547,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From 238632bbaac9324ffbe5aa7dd431998ec08608d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 061/127] fix: locate the most specific class whatever the
 classes are named

A class deriving from two others was found only if its name sorts before
one of them.
---
 edk2toollib/utility_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 5c98413..78e924a 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -420,6 +420,7 @@ def locate_class_in_module(Module: Any, DesiredClass: Any) -> Any:  # noqa: ANN4
     --------------      ------------      -----------------
     """
     DesiredClassInstance = None
+    candidates = []
     # Pull out the contents of the module that was provided
     module_contents = dir(Module)
     # Filter through the Module, we're only looking for classes.
@@ -432,10 +433,13 @@ def locate_class_in_module(Module: Any, DesiredClass: Any) -> Any:  # noqa: ANN4
         # most specific one. If multiple instances are found belonging to different
         # class hierarchies, raise an error.
         if _class is not DesiredClass and issubclass(_class, DesiredClass):
+            candidates.append(_class)
             if (DesiredClassInstance is None) or issubclass(_class, DesiredClassInstance):
                 DesiredClassInstance = _class
-            elif not issubclass(DesiredClassInstance, _class):
-                raise RuntimeError(f"Multiple instances were found:\n\t{DesiredClassInstance}\n\t{_class}")
+    # the names of the classes, and so their order, must not matter
+    for _class in candidates:
+        if not issubclass(DesiredClassInstance, _class):
+            raise RuntimeError(f"Multiple instances were found:\n\t{DesiredClassInstance}\n\t{_class}")
     return DesiredClassInstance
 
 
-- 
2.43.0


From 5ba171c2ce45ebe0eb38da397068ac4c0a3bad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 062/127] fix: accept outfs in PrintByteList

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 78e924a..5bfc40f 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -482,7 +482,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 8e63fddc582fe02be672e57411d38d95deb88668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 063/127] fix: write well-formed test reports for messages with
 control characters

---
 edk2toollib/log/junit_report_format.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..4604d5c 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,9 +15,18 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
-from typing import IO
-from xml.sax.saxutils import escape
+from typing import IO, Optional
+from xml.sax import saxutils
+
+# the characters an XML document cannot contain, not even escaped
+_NOT_XML = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def escape(data: str, entities: Optional[dict] = None) -> str:
+    """Escape text for XML, replacing the characters XML cannot contain."""
+    return saxutils.escape(_NOT_XML.sub("\ufffd", data), entities or {})
 
 
 class JunitReportError(object):
-- 
2.43.0


From 2fb8850d84dd281cf65965a5e9096a2f46b2b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 064/127] fix: restore a record that cannot be formatted

---
 edk2toollib/log/ansi_handler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..6d254a7 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,12 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            # other handlers get the record too, even if it cannot be formatted
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From 0c2f524defa4083a61456ea21a69783e49f7e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 065/127] fix: do not change the mode of what links in a
 removed tree lead to

---
 edk2toollib/utility_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 5bfc40f..c07433a 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -459,7 +459,8 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
 
     def _remove_readonly(func: Callable, path: str, _: any) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
-        os.chmod(path, stat.S_IWRITE)
+        if not os.path.islink(path):  # do not change what is outside of the folder
+            os.chmod(path, stat.S_IWRITE)
         func(path)
 
     for _ in range(3):  # retry up to 3 times
-- 
2.43.0


From f04f0896ceb6d4fd139afc76d71b614b103eaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 066/127] fix: write the padding of BMP images

---
 edk2toollib/uefi/bmp_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..565d2f8 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -331,7 +331,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From fd598e82779c7849db3af30d4981e2355f993fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 067/127] fix: create BMP images without a file

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 565d2f8..d85a7fc 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From 542da495b5e56514f9dd44ede6bd85a36441af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 068/127] fix: refuse BMP images whose data lies outside of
 them

---
 edk2toollib/uefi/bmp_object.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index d85a7fc..20959d9 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -217,6 +217,12 @@ class BmpObject(object):
                 % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
             )
 
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
+
+        if not (fs.tell() - offset) <= self.ImageOffset <= self.Size:
+            raise Exception("Image Data can't start at 0x%X" % self.ImageOffset)
+
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
-- 
2.43.0


From 52e9c66b2065969517778ad2a842c329b82a1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 069/127] fix: forget the previous color map when a BMP image
 is read again

---
 edk2toollib/uefi/bmp_object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 20959d9..deb5c9e 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -223,6 +223,11 @@ class BmpObject(object):
         if not (fs.tell() - offset) <= self.ImageOffset <= self.Size:
             raise Exception("Image Data can't start at 0x%X" % self.ImageOffset)
 
+        # forget what was read before
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
+
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
-- 
2.43.0


From c386da2288fe75b67cf46c3836b870622f11d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 070/127] fix: print BMP color maps

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index deb5c9e..89cc2e0 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From 3cfa09d4f6d30c2ce188ca335f8bcb19a8f0c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 071/127] fix: forget the previous type when a variable store
 header is read again

---
 edk2toollib/uefi/edk2/variable_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..72909e8 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -81,8 +81,7 @@ class VariableStoreHeader(object):
         # Check one last thing.
         if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
             raise Exception("VarStore is of unknown type! %s" % self.Signature)
-        if self.Signature == EfiAuthenticatedVariableGuid:
-            self.Type = "AuthVar"
+        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
 
         return self
 
-- 
2.43.0


From b862105a3c1ad4f6b76b37c8aab24e88256f7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 072/127] fix: read the relative offset of FTW write records as
 signed

---
 edk2toollib/uefi/edk2/ftw_working_block_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/ftw_working_block_format.py b/edk2toollib/uefi/edk2/ftw_working_block_format.py
index 0c5655d..0113015 100644
--- a/edk2toollib/uefi/edk2/ftw_working_block_format.py
+++ b/edk2toollib/uefi/edk2/ftw_working_block_format.py
@@ -201,7 +201,7 @@ class EfiFtwWriteRecord(object):
 
     def __init__(self) -> "EfiFtwWriteRecord":
         """Initializes an empty object."""
-        self.StructString = "=BBBBLQQQQ"  # spell-checker: disable-line
+        self.StructString = "=BBBBLQQQq"  # spell-checker: disable-line
         self.StatusBits = None
         self.ReservedByte1 = None
         self.ReservedByte2 = None
-- 
2.43.0


From 5e8888e10f6e5c2165fca4fe70f144b99c8be61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 073/127] fix: PCCARD device path nodes can be decoded

The header of a node has no attribute data.
---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From cb1b8e75e641a22a86f69520b381c69b3bac01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 074/127] fix: device path nodes of an unknown type are kept as
 unimplemented nodes

Only subtype 255 of an unknown type was found; any other raised KeyError.
---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..9e499f1 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -963,7 +963,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From b121ed8a0164f9e000758fd4ea66eb21873b8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 075/127] fix: a device path node shorter than its header is
 refused

A length of 1 to 3 was followed, which read nodes from the middle of the header.
---
 edk2toollib/uefi/device_path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 9e499f1..60206d4 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1082,14 +1082,14 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
+            if header.dev_length < EfiDevicePathProtocol._dp_struct_size:
+                # dev_length is user controlled after all..
+                raise ValueError(f"Invalid Header Length: {header}")
+
             device_path_class = DevicePathFactory._find_implementation(header)
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
 
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From bc2b505a4a94907c02862201edebbbb5279edfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 076/127] fix: make the sections of a DSC object iterable

Items stored with dict.__setitem__ in an OrderedDict are not iterated, so
no section was written when a DSC object was translated to a file.
---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..10b3607 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,7 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
 
 
 class dsc:
-- 
2.43.0


From c742dfaa3b3e811ed03c99829deef1529a2c7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 077/127] fix: do not take different DSC sections as equal

Equality of sections ignored the architecture or the module type.
---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 10b3607..7b6826f 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -209,7 +209,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -268,9 +268,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return other.module_type == self.module_type and other.codebase == self.codebase and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From bb7492b272fdb11619f10b7f6af9a68a1ad217b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 078/127] fix: keep DSC PCD sections of different SKUs and
 stores apart

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 7b6826f..821b4ee 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -317,7 +317,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -328,7 +328,12 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
-        return self.pcd_type == other.pcd_type and self.arch == other.arch
+        return (
+            self.pcd_type == other.pcd_type
+            and self.arch == other.arch
+            and self.sku == other.sku
+            and self.default_store == other.default_store
+        )
 
 
 class dsc_pcd_component_type(dsc_pcd_section_type):
-- 
2.43.0


From 62eaffd0b287cf27af7bfadb5cc1acda65da129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 079/127] fix: give equal library classes equal hashes

Equality ignores the case of the class, so two spellings were both kept.
---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 821b4ee..f267d0e 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -529,7 +529,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 42d42c0a3dd9c58c8895a57c9055247c8c8a70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 080/127] fix: replace every SKU that a new one clashes with

A SKU with the id of one and the name of another SKU was not added.
---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f267d0e..d095212 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -32,7 +32,9 @@ class dsc_set(set):
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
         if item in self:
-            super().discard(item)
+            # a SKU may replace two others: the one with its id and the one with its name
+            for old_item in [x for x in self if x == item]:
+                super().discard(old_item)
             # NEXTVER: get add the old_item to item
         super().add(item)
 
-- 
2.43.0


From 22a6d4205222a4c4ae24dee4aeb8e88452254c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 081/127] fix: separate the scope of DSC build options from the
 section name

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..9995ecb 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -73,7 +73,7 @@ class DscTranslator:
             # Then Build Options
             print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From bd505a1a3dac5201df8d45e2ada24ed51f681921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 082/127] fix: write replacing DSC build options as such

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 9995ecb..ef68077 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -111,7 +111,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f"== {obj.data}" if obj.replace else f"= {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From 60e37b31b27a03872e5931864186ccfcd44e7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 083/127] fix: write the libraries and default stores of a DSC
 object

---
 .../uefi/edk2/build_objects/dsc_translator.py    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index ef68077..4b1cabe 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,9 +11,11 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
+    library,
     library_class,
     pcd,
     pcd_typed,
@@ -55,6 +57,16 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
+            # Then the default stores
+            if len(obj.default_stores) > 0:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
+            # Then the libraries
+            for header, x in obj.libraries.items():
+                lines.append(f"{depth_pad}[Libraries{header}]")
+                lines += cls._GetDscLinesFromDscObj(x, depth)
+
             # Third, library classes
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{header}]")
@@ -78,6 +90,10 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
+        elif type(obj) is library:
+            lines.append(f"{depth_pad}{obj.inf}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From 596b0071e1ae5284fcc86b842cbb949ba752eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 084/127] fix: refuse INF names that end with a line break

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..7e3a38f 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
-- 
2.43.0


From 6151a7cf345122477fbe44ff0ad8c2cd171f3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 085/127] fix: refuse INF names, tags and files that end with a
 line break

---
 edk2toollib/windows/capsule/inf_generator2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..d205876 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
-- 
2.43.0


From c198b375f200f747798adb726bb940342cc165c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 086/127] fix: accept INF firmware tags with a minus sign

The tag is valid, but the key of its description was refused. Keys that end
with a line break are refused.
---
 edk2toollib/windows/capsule/inf_generator2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index d205876..3b0d3e3 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -402,8 +402,8 @@ class InfStrings(object):
             Value (str): the value of the localizable string as a string (e.g. "Firmware Manufacturer")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+ (as tags do)
+        if not (re.compile(r"[\w-]+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From a37561fc97fd3678b0e722893cca9dcc0ae24333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 087/127] fix: refuse negative versions in INF files

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 7e3a38f..e6e3612 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
-- 
2.43.0


From 1a0e0dca5c9880f831fbb53d7e7e5334c0a58331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 088/127] fix: refuse firmware versions that do not fit a
 REG_DWORD

---
 edk2toollib/windows/capsule/inf_generator2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 3b0d3e3..eab0595 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -227,7 +227,10 @@ class InfFirmware(object):
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
         """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        version = int(value, base=0)
+        if version < 0 or version > 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
-- 
2.43.0


From 7ead99b8041d659a36c41aea6b949a63a81a06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 089/127] fix: write ESRT GUIDs without doubled braces in INF
 files

A GUID given with braces (or without hyphens) is accepted, and was written as
it was given between braces.
---
 edk2toollib/windows/capsule/inf_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index e6e3612..e6584e2 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        # if this works it is valid...otherwise throws exception
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionString(self) -> str:
-- 
2.43.0


From 2dbac83e751d1c266aca5aa15b29369120238642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 090/127] fix: write ESRT GUIDs of several firmwares without
 doubled braces

---
 edk2toollib/windows/capsule/inf_generator2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index eab0595..cf13ef2 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -216,8 +216,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From 6a26eece785fd253b0541495234f5a906b25e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 091/127] fix: do not write the blanks around a target OS
 version into INF files

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index cf13ef2..bec0b51 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -300,7 +300,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
-- 
2.43.0


From 4e782de75db85a754ae63b22db179475da8cf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 092/127] fix: keep the token space of build report PCDs

The offset of a VPD PCD or the last byte of an array alone on its line was
taken for the token space of the PCDs that follow.
---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..72eee67 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -134,7 +134,7 @@ class ModuleSummary(object):
 
                     elif inPcdSection:
                         # this is the namespace token line
-                        if len(line.split()) == 1:
+                        if line.isidentifier():
                             tokenspace = line
 
                         # this is the main line of the PCD value
-- 
2.43.0


From 789420cb7f886e4e782076bc7c9c440274d2d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 093/127] fix: read build report PCDs with a colon or equals
 sign in the value

They were left out, and default values with a colon were taken for PCDs.
---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 72eee67..ba1883a 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -138,7 +138,7 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 1:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
@@ -154,7 +154,7 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 0:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
-- 
2.43.0


From 2d0e622f51ea779b4925841cf671f9a5acddc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 094/127] fix: read build report PCDs with a brace or escaped
 quote in a string

---
 .../uefi/edk2/parsers/buildreport_parser.py        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index ba1883a..8b48afb 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -9,6 +9,7 @@
 
 import logging
 import os
+import re
 from enum import Enum
 from typing import Optional
 
@@ -47,6 +48,12 @@ class ModuleSummary(object):
         self.FvName = None
         self.pathConverter = pathconverter
 
+    @staticmethod
+    def _IsWholeValue(line: str) -> bool:
+        """Returns whether all strings, and all braces outside of strings, are closed."""
+        rest = re.sub(r'"(\\.|[^"\\])*"', "", line)
+        return '"' not in rest and rest.count("{") == rest.count("}")
+
     def Parse(self) -> None:
         """Parses the Module summary object."""
         inPcdSection = False
@@ -139,10 +146,7 @@ class ModuleSummary(object):
 
                         # this is the main line of the PCD value
                         elif "=" in line and line.partition("=")[0].count(":") == 1:
-                            while (line.count('"') % 2) != 0:
-                                i += 1
-                                line += " " + self._RawContent[i].rstrip()
-                            while line.count("{") != line.count("}"):
+                            while not self._IsWholeValue(line):
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
 
@@ -155,7 +159,7 @@ class ModuleSummary(object):
 
                         # this is the secondary lines of PCD values showing Defaults
                         elif "=" in line and line.partition("=")[0].count(":") == 0:
-                            while (line.count('"') % 2) != 0:
+                            while not self._IsWholeValue(line):
                                 i += 1
                                 line += self._RawContent[i].rstrip()
 
-- 
2.43.0


From ba719455600e67762bbde6e11dd6b198497c15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 095/127] fix: find components when a module is outside of the
 workspace

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 8b48afb..2a3a26c 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -332,7 +332,7 @@ class BuildReport(object):
         """
         for k, v in self.Modules.items():
             if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath) or v.InfPath
             if v.InfPath.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
-- 
2.43.0


From fab518a217e59b9f8a010b7820e7ead215fff95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 096/127] fix: parse override lines with no colon or more than
 one

A line without a colon raised IndexError, and an absolute Windows path was cut
at its colon.
---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..e24d073 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -138,8 +138,8 @@ class OverrideParser(object):
         # Split the override string into pieces.
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        line_parts = line_contents.partition(":")
+        line_parts = [part.strip() for part in line_parts[2].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
-- 
2.43.0


From 48c1a55966b83cfbe22dab74367da82bee625a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 097/127] fix: keep target.txt values that contain an equals
 sign

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..46091a8 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if "=" in sline:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From 7b217a8195fabfa58c34082aa49ab6a55f7b6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 098/127] fix: FindToolInWinSdk passed the product as the
 architecture and the architecture as the product

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..e570a08 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -384,7 +384,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch=arch, product=product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From aa5c4d2628268de4de1d4e1f41c4402d425062bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 099/127] fix: a download of vswhere that broke off left an
 unverified vswhere.exe behind

---
 edk2toollib/windows/locate_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index e570a08..bbd4505 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -73,8 +73,10 @@ def _DownloadVsWhere(unpack_folder: os.PathLike = None) -> None:
     if not os.path.isfile(out_file_name):
         try:
             # Download the file and save it locally under `temp_file_name`
-            with urllib.request.urlopen(__URL) as response, open(out_file_name, "wb") as out_file:
-                out_file.write(response.read())
+            with urllib.request.urlopen(__URL) as response:
+                contents = response.read()
+            with open(out_file_name, "wb") as out_file:
+                out_file.write(contents)
         except urllib.error.HTTPError as e:
             logging.error("We ran into an issue when getting VsWhere")
             raise e
-- 
2.43.0


From 4fc9f59897f59ed50b74976b1c991ce151d7a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 100/127] fix: FindToolInWinSdk took brackets in the SDK
 directory for a pattern

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index bbd4505..0bda8b5 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -394,7 +394,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
         sdk_ver = "0.0.0.0"
     sdk_dir = os.path.realpath(sdk_dir)
-    search_pattern = os.path.join(sdk_dir, "**", tool)
+    search_pattern = os.path.join(glob.escape(sdk_dir), "**", tool)
 
     match_offset = len(sdk_dir)
     # look for something like 10.0.12323.0123
-- 
2.43.0


From 10c6beff7295eead224ce4ca98d389af9fb2dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 101/127] fix: FindToolInWinSdk preferred a higher version over
 the current SDK depending on directory order

---
 edk2toollib/windows/locate_tools.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0bda8b5..3937c66 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -392,7 +392,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         sdk_ver = results["WindowsSDKVersion"]
     except ValueError:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
-        sdk_ver = "0.0.0.0"
+        sdk_ver = None  # no version is the current one
     sdk_dir = os.path.realpath(sdk_dir)
     search_pattern = os.path.join(glob.escape(sdk_dir), "**", tool)
 
@@ -401,6 +401,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
     top_match = None
+    top_is_current = False
     # Look at in match in the tree
     for match in glob.iglob(search_pattern, recursive=True):
         match_file = match[match_offset:]  # strip off the root
@@ -412,14 +413,19 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         if len(versions) == 0:
             top_ver_match = "0.0.0.0"  # if we have a bad version, we should fall to a bad version
         for version in versions:  # find the highest version if there are multiple in this?
-            is_current_sdk_version = _CompareWindowVersions(version, sdk_ver) == 0
-            if _CompareWindowVersions(version, top_ver_match) > 0 or is_current_sdk_version:
+            if sdk_ver is not None and _CompareWindowVersions(version, sdk_ver) == 0:
+                top_ver_match = version
+                break
+            if _CompareWindowVersions(version, top_ver_match) > 0:
                 top_ver_match = version
         # if we have a highest version or one that matches our current from environment variables?
-        is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
-        if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
+        is_current = sdk_ver is not None and _CompareWindowVersions(top_ver_match, sdk_ver) == 0
+        if top_is_current and not is_current:
+            continue  # the current version is preferred over any higher one
+        if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current:
             top_version_so_far = top_ver_match
             top_match = match
+            top_is_current = is_current
     if top_match is None:
         logging.critical("We weren't able to find {}".format(tool))
     return top_match
-- 
2.43.0


From 3ec88e5e64b03cf07610eadfb9052c112f151e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 102/127] fix: quote the path of a UEFI variable for the shell

---
 edk2toollib/os/uefivariablesupport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..fc09d01 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -21,6 +21,7 @@ This module provides:
 
 import logging
 import os
+import shlex
 import struct
 import uuid
 from ctypes import create_string_buffer
@@ -301,7 +302,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From a1d1fa2cb8d600a4e11be5c7111bdccced2d7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 103/127] fix: clear the immutable flag before a UEFI variable
 is deleted

---
 edk2toollib/os/uefivariablesupport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index fc09d01..c12fa34 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -293,6 +293,8 @@ class UefiVariable(object):
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
+                    # remove the immutable flag
+                    os.system("sudo chattr -i " + shlex.quote(path))
                     os.remove(path)
                     success = 1  # expect non-zero success
                 return success
-- 
2.43.0


From 0d4beeeb411c7b87beb552020208369c1a9fcd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 104/127] fix: refuse bad attributes and data before a UEFI
 variable is created

---
 edk2toollib/os/uefivariablesupport.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index c12fa34..f407e75 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -302,14 +302,15 @@ class UefiVariable(object):
             if attrs is None:
                 attrs = 0x7
 
+            # var data is attribute (UINT32) followed by data
+            packed = struct.pack("=I", attrs)
+            packed += var
+
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
                 os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
-                # var data is attribute (UINT32) followed by data
-                packed = struct.pack("=I", attrs)
-                packed += var
                 fd.write(packed)
 
         return 1
-- 
2.43.0


From 1023b7a40b72437eb49bdc2456fe1398351d666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 105/127] fix: keep DEFINE and = in FDF macro names and values

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 98fc4b8..ea1e2f2 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -128,16 +129,16 @@ class FdfParser(HashFileParser):
                 self.LocalVars.update(self.Dict)
 
             if InDefinesSection:
-                if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                if sline.count("=") >= 1:
+                    tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
-            elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            elif re.match(r"DEFINE\s", sline.strip()):
+                tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 2a28228c077538cdc1836b31d2df2059b8d5e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 106/127] fix: keep DEFINE in INF macro names and values

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index ca22152..b5ec72b 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,8 +120,8 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            if re.match(r"DEFINE\s", sline.strip()):
+                tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -254,8 +254,8 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
-            if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+            if re.match(r"DEFINE\s", line.strip()):
+                tokens = re.sub(r"^DEFINE\s+", "", line.strip()).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 6a30c34927cd1a31eda46f4bd9830ed7d9b23b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 107/127] fix: do not drop INF and DEC defines with = in the
 value

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 2 +-
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 45c01ba..8f34ef0 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -209,7 +209,7 @@ class DecParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InDefinesSection = False
                 else:
-                    if sline.count("=") == 1:
+                    if sline.count("=") >= 1:
                         tokens = sline.split("=", 1)
                         self.Dict[tokens[0].strip()] = tokens[1].strip()
                         if self.PackageName is None and tokens[0].strip() == "PACKAGE_NAME":
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index b5ec72b..a6e1308 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -130,7 +130,7 @@ class InfParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InDefinesSection = False
                 else:
-                    if sline.count("=") == 1:
+                    if sline.count("=") >= 1:
                         tokens = sline.split("=", 1)
                         self.Dict[tokens[0].strip()] = tokens[1].strip()
                         #
-- 
2.43.0


From 2dff185facc6c7507b39f1f2acfbf11e103e7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 108/127] fix: print the data of a PKCS1 certificate to the
 given stream

hexdump() takes the stream as outfs; WinCertPkcs1.print() passed it under
another name, so that the data went to the standard output.
---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index d679087..7857eae 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -191,7 +191,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
-- 
2.43.0


From a0f60963fb943cb740ad011133ad4b3c0a6ce1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 109/127] fix: print firmware policies whose device policy is
 no number

Print() applied a bit mask to the value of the device policy rule, which
raised TypeError for a policy holding a string there.
---
 edk2toollib/windows/policy/firmware_policy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index b4585ed..8562166 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -923,7 +923,8 @@ class FirmwarePolicy(object):
                 and rule.ValueName.String == self.FW_POLICY_VALUE_NAME
             ):
                 print(prefix + "  Device Policy:")
-                self.PrintDevicePolicy(devicePolicy=rule.Value.value, prefix=prefix)
+                if isinstance(rule.Value.value, int):
+                    self.PrintDevicePolicy(devicePolicy=rule.Value.value, prefix=prefix)
         print("  Valuetable")
         print(self.ValueTable)
         return
-- 
2.43.0


From 3f51f8323d382a19a3e0a28f0b72d8a8c30d64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 110/127] fix: blanks inside the section headers of an INF are
 no part of the architecture

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index a6e1308..ab2aa03 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -52,8 +52,8 @@ class InfParser(HashFileParser):
     """
 
     SECTION_REGEX = re.compile(r"\[(.*)\]")
-    SECTION_LIBRARY = re.compile(r"libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
-    SECTION_SOURCE = re.compile(r"sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_LIBRARY = re.compile(r"libraryclasses\s*(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_SOURCE = re.compile(r"sources\s*(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
 
     def __init__(self) -> "InfParser":
         """Inits an empty parser."""
@@ -265,12 +265,12 @@ class InfParser(HashFileParser):
             match = self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
-                arch_list = match
+                arch_list = [arch.strip() for arch in match]
                 continue
             match = self.SECTION_SOURCE.findall(line)
             if match:
                 current_section = "Sources"
-                arch_list = match
+                arch_list = [arch.strip() for arch in match]
                 continue
 
             # Catch all others
-- 
2.43.0


From 07973b4f3a6433eaa5f76a72ba519c2027cda7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 111/127] fix: a source file named like a section of an INF
 starts no section

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index ab2aa03..47824bf 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -262,12 +262,13 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
-            match = self.SECTION_LIBRARY.findall(line)
+            header = line if line.strip().startswith("[") else ""
+            match = self.SECTION_LIBRARY.findall(header)
             if match:
                 current_section = "LibraryClasses"
                 arch_list = [arch.strip() for arch in match]
                 continue
-            match = self.SECTION_SOURCE.findall(line)
+            match = self.SECTION_SOURCE.findall(header)
             if match:
                 current_section = "Sources"
                 arch_list = [arch.strip() for arch in match]
-- 
2.43.0


From 03415570dd08148e369ed4d66ac4156abf6ad5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 112/127] fix: brackets inside a DSC line (an array element, a
 text) start no section

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index b11471b..232545c 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -894,7 +894,7 @@ class HashFileParser(BaseParser):
         Args:
           line (str): line representing a new section.
         """
-        if line.count("[") == 1 and line.count("]") == 1:  # new section
+        if line.strip().startswith("[") and line.count("[") == 1 and line.count("]") == 1:  # new section
             section = line.strip().lstrip("[").split(".")[0].split(",")[0].rstrip("]").strip()
             self.CurrentFullSection = line.strip().lstrip("[").split(",")[0].rstrip("]").strip()
             return (True, section)
-- 
2.43.0


From d4be7b13b71960f32aec218630cb487fbf6865b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 113/127] fix: braces and INF names inside the text of a PCD
 override are no part of a component

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 622b92c..21a71fe 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -109,31 +109,34 @@ class DscParser(HashFileParser):
             self.Logger.debug("FullSection: %s" % self.CurrentFullSection)
             return (line_resolved, [], None)
 
+        # braces and names inside of a text (the value of a PCD) have no meaning for the structure of a component
+        line_unquoted = re.sub(r'"[^"]*"', '""', line_resolved)
+
         # process line in x64 components
         if self.CurrentFullSection.upper() == "COMPONENTS.X64":
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a 64bit BuildOptions Section: %s" % p)
                 elif self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a 64bit Module Override section")
             else:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathMod(line_resolved)
                     self.SixMods.append(p)
                     if file_name is not None and lineno is not None:
                         self.SixModsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                     self.Logger.debug("Found 64bit Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            self.ParsingInBuildOption = self.ParsingInBuildOption + line_unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - line_unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in ia32 components
         elif self.CurrentFullSection.upper() == "COMPONENTS.IA32":
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     if file_name is not None and lineno is not None:
@@ -143,7 +146,7 @@ class DscParser(HashFileParser):
                     self.Logger.debug("Found a Pcd in a 32bit Module Override section")
 
             else:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathMod(line_resolved)
                     self.ThreeMods.append(p)
                     if file_name is not None and lineno is not None:
@@ -152,14 +155,14 @@ class DscParser(HashFileParser):
                         )
                     self.Logger.debug("Found 32bit Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            self.ParsingInBuildOption = self.ParsingInBuildOption + line_unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - line_unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in other components
         elif "COMPONENTS" in self.CurrentFullSection.upper():
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a BuildOptions Section: %s" % p)
@@ -167,13 +170,13 @@ class DscParser(HashFileParser):
                     self.Logger.debug("Found a Pcd in a Module Override section")
 
             else:
-                if ".inf" in line_resolved.lower():
+                if ".inf" in line_unquoted.lower():
                     p = self.ParseInfPathMod(line_resolved)
                     self.OtherMods.append(p)
                     self.Logger.debug("Found Module: %s" % p)
 
-            self.ParsingInBuildOption = self.ParsingInBuildOption + line_resolved.count("{")
-            self.ParsingInBuildOption = self.ParsingInBuildOption - line_resolved.count("}")
+            self.ParsingInBuildOption = self.ParsingInBuildOption + line_unquoted.count("{")
+            self.ParsingInBuildOption = self.ParsingInBuildOption - line_unquoted.count("}")
             return (line_resolved, [], None)
 
         # process line in library class section (don't use full name)
-- 
2.43.0


From aef00ca156db5dce6b0da0dddf684f002477e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 114/127] fix: blanks inside the section headers of an FDF are
 no part of the section names

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index ea1e2f2..df558b2 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -116,9 +116,9 @@ class FdfParser(HashFileParser):
             if sline.strip().startswith("[") and sline.strip().endswith("]"):  # if we're starting a new section
                 # this basically gets what's after the . or if it doesn't have a period
                 # the whole thing for every comma separated item in sline
-                self.CurrentSection = [
-                    x.split(".", 1)[1] if "." in x else x for x in sline.strip("[] ").strip().split(",")
-                ]
+                names = [x.strip() for x in sline.strip("[] \t").split(",")]
+                self.CurrentSection = [x.split(".", 1)[1] if "." in x else x for x in names]
+                sline = f"[{','.join(names)}]"
                 InDefinesSection = False
                 InFdSection = False
                 InFvSection = False
-- 
2.43.0


From 38f1ee203470974846a6f425b98388cdaea0474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 115/127] fix: braces inside the texts of an FDF open and close
 nothing

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index df558b2..b4c7ac8 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -62,8 +62,10 @@ class FdfParser(HashFileParser):
         if not self.InActiveCode():
             return self.GetNextLine()
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+        # braces inside of a text open and close nothing
+        unquoted = re.sub(r'"[^"]*"', '""', sline)
+        self._BracketCount += unquoted.count("{")
+        self._BracketCount -= unquoted.count("}")
 
         return sline
 
-- 
2.43.0


From b39293a50ae53de8cdddbcf57d7c89840fef5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 116/127] fix: the keywords of an FDF may be followed by any
 blanks

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index b4c7ac8..a4518d1 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -157,7 +157,7 @@ class FdfParser(HashFileParser):
                     if section not in self.FVs:
                         self.FVs[section] = {"Dict": {}, "Infs": [], "Files": {}}
                     # ex: INF  MdeModulePkg/Core/RuntimeDxe/RuntimeDxe.inf
-                    if sline.upper().startswith("INF "):
+                    if re.match(r"INF\s", sline.upper()):
                         InfValue = sline[3:].strip()
                         self.FVs[section]["Infs"].append(InfValue)
                     # ex: FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {
@@ -176,8 +176,9 @@ class FdfParser(HashFileParser):
                         while self._BracketCount > 0:  # go until we get our bracket back
                             sline = self.GetNextLine().strip("}{ ")
                             # SECTION GUIDED EE4E5898-3914-4259-9D6E-DC7BD79403CF
-                            if sline.upper().startswith("SECTION GUIDED"):  # get the guided section
-                                section_def = sline[14:].strip().split("=", 1)
+                            guided = re.match(r"SECTION\s+GUIDED", sline, re.IGNORECASE)
+                            if guided:  # get the guided section
+                                section_def = sline[guided.end() :].strip().split("=", 1)
                                 # EE4E5898-3914-4259-9D6E-DC7BD79403CF in this example
                                 sectionType = section_def[0].strip()
                                 if sectionType not in self.FVs[section]["Files"][currentName]:
-- 
2.43.0


From a40f4eb769549b982020bed5c509b4901ac62d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 117/127] fix: read the sections of an INF whose names follow a
 blank

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 47824bf..33400f1 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -207,36 +207,37 @@ class InfParser(HashFileParser):
                     continue
 
             # check for different sections
-            if sline.strip().lower().startswith("[defines"):
+            header = re.sub(r"^\[\s+", "[", sline.strip().lower())
+            if header.startswith("[defines"):
                 InDefinesSection = True
 
-            elif sline.strip().lower().startswith("[packages"):
+            elif header.startswith("[packages"):
                 InPackagesSection = True
 
-            elif sline.strip().lower().startswith("[libraryclasses"):
+            elif header.startswith("[libraryclasses"):
                 InLibraryClassSection = True
 
-            elif sline.strip().lower().startswith("[protocols"):
+            elif header.startswith("[protocols"):
                 InProtocolsSection = True
 
-            elif sline.strip().lower().startswith("[ppis"):
+            elif header.startswith("[ppis"):
                 InPpiSection = True
 
-            elif sline.strip().lower().startswith("[guids"):
+            elif header.startswith("[guids"):
                 InGuidsSection = True
 
             elif (
-                sline.strip().lower().startswith("[pcd")
-                or sline.strip().lower().startswith("[patchpcd")
-                or sline.strip().lower().startswith("[fixedpcd")
-                or sline.strip().lower().startswith("[featurepcd")
+                header.startswith("[pcd")
+                or header.startswith("[patchpcd")
+                or header.startswith("[fixedpcd")
+                or header.startswith("[featurepcd")
             ):
                 InPcdSection = True
 
-            elif sline.strip().lower().startswith("[sources"):
+            elif header.startswith("[sources"):
                 InSourcesSection = True
 
-            elif sline.strip().lower().startswith("[binaries"):
+            elif header.startswith("[binaries"):
                 InBinariesSection = True
 
         # Re-parse for scoped information
@@ -262,7 +263,7 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
-            header = line if line.strip().startswith("[") else ""
+            header = re.sub(r"^\[\s+", "[", line.strip()) if line.strip().startswith("[") else ""
             match = self.SECTION_LIBRARY.findall(header)
             if match:
                 current_section = "LibraryClasses"
-- 
2.43.0


From 8c364092d84a733cfd25025a1317b43f6f84145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 118/127] fix: read the sections of a DEC whose names follow a
 blank

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 8f34ef0..a3e6136 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -270,25 +270,26 @@ class DecParser(HashFileParser):
                     continue
 
             # check for different sections
-            if sline.strip().lower().startswith("[defines"):
+            header = re.sub(r"^\[\s+", "[", sline.strip().lower())
+            if header.startswith("[defines"):
                 InDefinesSection = True
 
-            elif sline.strip().lower().startswith("[libraryclasses"):
+            elif header.startswith("[libraryclasses"):
                 InLibraryClassSection = True
 
-            elif sline.strip().lower().startswith("[protocols"):
+            elif header.startswith("[protocols"):
                 InProtocolsSection = True
 
-            elif sline.strip().lower().startswith("[guids"):
+            elif header.startswith("[guids"):
                 InGuidsSection = True
 
-            elif sline.strip().lower().startswith("[ppis"):
+            elif header.startswith("[ppis"):
                 InPPISection = True
 
-            elif sline.strip().lower().startswith("[pcd"):
+            elif header.startswith("[pcd"):
                 InPcdSection = True
 
-            elif sline.strip().lower().startswith("[includes"):
+            elif header.startswith("[includes"):
                 InIncludesSection = True
 
         self.Parsed = True
-- 
2.43.0


From 0d1fb22ec9f9a372669d042ea9fba984abe76469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 119/127] fix: read the sections of a DSC whose names follow a
 blank

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 21a71fe..f02537f 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -415,7 +415,7 @@ class DscParser(HashFileParser):
         !!! warning
             The returned list of scopes does not include the section type.
         """
-        match = self.SECTION_REGEX.match(line)
+        match = self.SECTION_REGEX.match(re.sub(r"^\[\s+", "[", line))
 
         # If the line is not a section header, return the old section
         if not match:
-- 
2.43.0


From 1f3de98980a656016cd5f42507e2100cd24430a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 120/127] fix: tabs separate the parts of a conditional like
 blanks do

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 232545c..d3647cb 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -9,6 +9,7 @@
 
 import logging
 import os
+import re
 from typing import Optional, Union
 from warnings import warn
 
@@ -484,9 +485,9 @@ class BaseParser(object):
     def EvaluateConditional(self, text: str) -> bool:
         """Uses a pushdown resolver."""
         text = str(text).strip()
-        if text.lower().startswith("!if "):
+        if re.match(r"!if\s", text.lower()):
             text = text[3:].strip()
-        elif text.lower().startswith("!elseif "):
+        elif re.match(r"!elseif\s", text.lower()):
             text = text[7:].strip()
         else:
             raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
@@ -591,7 +592,7 @@ class BaseParser(object):
                     tokens.append(token)
                     token = ""
                 tokens.append(character)
-            elif character == " " and (mode == TEXT_MODE or mode == MACRO_MODE):
+            elif character.isspace() and (mode == TEXT_MODE or mode == MACRO_MODE):
                 if len(token) > 0:
                     tokens.append(token)
                     token = ""
@@ -607,7 +608,7 @@ class BaseParser(object):
             elif character not in CONDITION_CHARACTERS and mode == CONDITION_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-                token = character if character != " " else ""
+                token = character if not character.isspace() else ""
                 mode = TEXT_MODE
             elif character in CONDITION_CHARACTERS and mode == TEXT_MODE:
                 if len(token) > 0:
-- 
2.43.0


From 5360c833ad07363722fea92f6675fedf4586d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 121/127] fix: a quoted text may directly follow the operator
 of a conditional

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index d3647cb..ea57c70 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -572,6 +572,10 @@ class BaseParser(object):
         for character in text:
             if character == '"' and len(token) == 0 and mode != QUOTE_MODE:
                 mode = QUOTE_MODE
+            elif character == '"' and mode == CONDITION_MODE:
+                tokens.append(token)
+                token = ""
+                mode = QUOTE_MODE
             elif character == '"' and mode == QUOTE_MODE:
                 if len(token) > 0:
                     tokens.append(f'"{token}"')
-- 
2.43.0


From 1c2027de6dd6cce9830b4148d323fa2dd3589b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 122/127] fix: name override and NULL libraries by the closest
 package path

---
 .../database/tables/instanced_inf_table.py    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 27e6d62..b9330ba 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -233,11 +233,11 @@ class InstancedInfTable(TableGenerator):
         #
         if inf == component:
             for null_lib in override_dict["NULL"]:
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
             for null_lib in self._get_null_lib_instances(scope, library_dict):
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._to_closest_path(null_lib))
                 library_class_list.append("NULL")
 
         #
@@ -306,7 +306,7 @@ class InstancedInfTable(TableGenerator):
         # 1. If a Library class instance (INF) is specified in the Edk2 II [Components] section (an override),
         #    and the library supports the module, then it will be used.
         if library_class_name in override_dict:
-            return override_dict[library_class_name]
+            return self._to_closest_path(override_dict[library_class_name])
 
         # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
         #      and the library supports the module, then it will be used.
@@ -360,12 +360,19 @@ class InstancedInfTable(TableGenerator):
         for library_instance in library_instance_list:
             infp = self.inf(library_instance)
             if module.lower() in [phase.lower() for phase in infp.SupportedPhases]:
-                # Ensure the returned path is relative to the closest package path
-                library_instance = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
-                library_instance = self.pathobj.GetEdk2RelativePathFromAbsolutePath(library_instance)
-                return library_instance
+                return self._to_closest_path(library_instance)
         return None
 
+    def _to_closest_path(self, inf: str) -> str:
+        """Converts the path of an INF to be relative to the closest package path.
+
+        A path that does not exist is returned as it is.
+        """
+        full_path = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        if full_path is None:
+            return inf
+        return self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_path) or inf
+
     def _get_null_lib_instances(
         self,
         scope: str,
-- 
2.43.0


From 1bafee076dbeb573270df1ade944327890389f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 123/127] fix: find the package of a path below what is a file
 now

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index fe6778c..f9b98ed 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -303,7 +303,7 @@ class Edk2Path(object):
             dirpath = InputPath.parent
 
         while path_root != dirpath:
-            if dirpath.exists():
+            if dirpath.is_dir():
                 for f in dirpath.iterdir():
                     if f.suffix.lower() == ".dec":
                         return dirpath.name
-- 
2.43.0


From 5e12806c79fc257aa0547eb497655b6647275110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 124/127] fix: list the GUIDs of packages in upper case

---
 edk2toollib/uefi/edk2/guid_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 8cb4241..f7b9315 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -117,7 +117,7 @@ class GuidList:
             results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
 
         try:
-            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"], filename))
+            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"].upper(), filename))
         except Exception:
             logging.warning("Failed to find Package Guid from dec file: " + filename)
         return results
-- 
2.43.0


From 1dad5ccce57c952093fdd01cb381dcba4d172d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 125/127] fix: components below [Components.common.MODULE_TYPE]
 are for every architecture

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index f02537f..6ea3206 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -397,7 +397,7 @@ class DscParser(HashFileParser):
                     # Components without a specific scope (common or empty) are added to all current scopes
                     if os.path.isabs(line.strip(" {")):
                         line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
-                    if scope == "common":
+                    if scope.split(".")[0] == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
                             self.Components.append((line.strip(" {"), arch, library_override_dict))
                     else:
-- 
2.43.0


From f1d30a757bb1ec27b0d2a1e937bf90a8626f23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 126/127] fix: read FDF files with a thousand skipped lines in
 a row

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index a4518d1..6e5852d 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -45,29 +45,29 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            # braces inside of a text open and close nothing
+            unquoted = re.sub(r'"[^"]*"', '""', sline)
+            self._BracketCount += unquoted.count("{")
+            self._BracketCount -= unquoted.count("}")
 
-        # braces inside of a text open and close nothing
-        unquoted = re.sub(r'"[^"]*"', '""', sline)
-        self._BracketCount += unquoted.count("{")
-        self._BracketCount -= unquoted.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From fae453811efdbecac695a53a660cbba47a8eb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 127/127] fix: a tab may stand between a component and its
 opening brace

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 6ea3206..5ddc39a 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -395,13 +395,13 @@ class DscParser(HashFileParser):
 
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
-                    if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                    if os.path.isabs(line.strip(" \t{")):
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope.split(".")[0] == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch, library_override_dict))
                     else:
-                        self.Components.append((line.strip(" {"), scope, library_override_dict))
+                        self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
         except StopIteration:
             return
-- 
2.43.0

