From 893fd45c6788d8cd6aa32abc395834dc024fc0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 01/26] fix: Do not consume the compiled attribute replacements
 of a structure insert

Replacing an attribute of inserted structure deleted the entry from the
compiled program, so the next iteration or rendering lost it.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..dcbd947 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -464,6 +464,7 @@ class TALGenerator:
         # (name, value, action, expr, xlat, msgid)
         if not repldict:
             return attrlist
+        repldict = repldict.copy()
         newlist = []
         for item in attrlist:
             key = item[0]
-- 
2.43.0


From ef981d12b221ab1049247e0f0806c21a8e32294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:57 +0000
Subject: [PATCH 02/26] fix: Drop the macro uses abandoned by a failure that
 on-error contains

A failure inside a macro left its entry on the macro stack.  Later slots
were then filled from the abandoned use, and the nesting limit was reached
early.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..41521ca 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -994,6 +994,8 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        macros = self.macroStack[:]
+        inUse = self.inUseDirective
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1006,6 +1008,8 @@ class TALInterpreter:
             exc = sys.exc_info()[1]
             try:
                 self.restoreState(state)
+                self.macroStack[:] = macros
+                self.inUseDirective = inUse
                 engine = self.engine
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
-- 
2.43.0


From 162aaf67c279cb6480a504788e2f340a5a41ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:59 +0000
Subject: [PATCH 03/26] fix: Drop the translation units abandoned by a failure
 that on-error contains

A failure inside a translation unit left the unit open.  Names that followed
in an enclosing unit were added to the abandoned one and lost.
---
 src/zope/tal/talinterpreter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 41521ca..06168b2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -996,6 +996,8 @@ class TALInterpreter:
         state = self.saveState()
         macros = self.macroStack[:]
         inUse = self.inUseDirective
+        units = len(self.i18nStack)
+        names = dict(self.i18nStack[-1][0]) if units else {}
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1010,6 +1012,11 @@ class TALInterpreter:
                 self.restoreState(state)
                 self.macroStack[:] = macros
                 self.inUseDirective = inUse
+                del self.i18nStack[units:]
+                if units:
+                    unit = self.i18nStack[-1][0]
+                    unit.clear()
+                    unit.update(names)
                 engine = self.engine
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
-- 
2.43.0


From 3c6d5507258e05906dd37d560db17672b8a2bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:01 +0000
Subject: [PATCH 04/26] fix: Restore the source file after a failure that
 on-error contains

After a failure in a macro from another file, the handler and everything
following it were reported as belonging to that other file.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 06168b2..aef97d9 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -998,6 +998,7 @@ class TALInterpreter:
         inUse = self.inUseDirective
         units = len(self.i18nStack)
         names = dict(self.i18nStack[-1][0]) if units else {}
+        source = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1018,6 +1019,9 @@ class TALInterpreter:
                     unit.clear()
                     unit.update(names)
                 engine = self.engine
+                if self.sourceFile != source:
+                    self.sourceFile = source
+                    engine.setSourceFile(source)
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From 3a52745bdb20dab41e6f2b8cb7130e095e7dc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:04 +0000
Subject: [PATCH 05/26] fix: Give the error info the position of the failure

The position was read after it had been reset to that of the element
with the on-error handler.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index aef97d9..08d066d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1010,6 +1010,7 @@ class TALInterpreter:
         except BaseException:
             exc = sys.exc_info()[1]
             try:
+                position = self.position
                 self.restoreState(state)
                 self.macroStack[:] = macros
                 self.inUseDirective = inUse
@@ -1023,7 +1024,7 @@ class TALInterpreter:
                     self.sourceFile = source
                     engine.setSourceFile(source)
                 engine.beginScope()
-                error = engine.createErrorInfo(exc, self.position)
+                error = engine.createErrorInfo(exc, position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
                 # attribute.
-- 
2.43.0


From fb419dab3a77120a4dd67547a4b7a37eeadab2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:06 +0000
Subject: [PATCH 06/26] fix: Close the handler's scope if the error info cannot
 be provided

The scope opened for the on-error handler stayed open when creating or
setting the error variable failed.
---
 src/zope/tal/talinterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 08d066d..1c3b68e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1023,14 +1023,14 @@ class TALInterpreter:
                 if self.sourceFile != source:
                     self.sourceFile = source
                     engine.setSourceFile(source)
-                engine.beginScope()
                 error = engine.createErrorInfo(exc, position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
                 # attribute.
                 del exc
-            engine.setLocal('error', error)
+            engine.beginScope()
             try:
+                engine.setLocal('error', error)
                 self.interpret(handler)
             finally:
                 engine.endScope()
-- 
2.43.0


From b6f90d8770bbdb6790346a21e34e7794c59a41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 07/26] fix: Stay in XML mode when structure is inserted into
 XML

The inserted program switched the interpreter to HTML mode for the rest of
the rendering, so a following use-macro was refused.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1c3b68e..1a10747 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -809,7 +809,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 879d9e372ad295e1ea5b43fde56d5a752c62c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:10 +0000
Subject: [PATCH 08/26] fix: Compile empty XML elements in a TAL namespace
 without attributes

The start tag had already been turned into raw text, and was then labelled
as an empty element tag, which failed when rendered.
---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index dcbd947..e1bbb66 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -255,11 +255,11 @@ class TALGenerator:
 
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
-        start = self.popProgram()  # start tag
         if (isend or not program) and self.xml:
             # Minimize empty element
-            start[-1] = ("startEndTag",) + start[-1][1:]
+            self.program[-1] = ("startEndTag",) + self.program[-1][1:]
             isend = 1
+        start = self.popProgram()  # start tag
         cexpr = optTag[0]
         if cexpr:
             cexpr = self.compileExpression(optTag[0])
-- 
2.43.0


From 1195ebc3a6496bf494e08e8493afacc9189a29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:12 +0000
Subject: [PATCH 09/26] fix: Report the second and later iterations of a repeat
 at its element

Expressions of the repeated element were reported at the position of the
last element rendered in the previous iteration.
---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1a10747..fd6c2d3 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -841,9 +841,11 @@ class TALInterpreter:
 
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
+        position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
             self.interpret(block)
+            self.do_setPosition(position)
     bytecode_handlers["loop"] = do_loop
 
     def translate(self, msgid, default=None, i18ndict=None,
-- 
2.43.0


From 5ab0dcd63e00e36ae95331fc04bc8b82a485716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:14 +0000
Subject: [PATCH 10/26] fix: Report translations at the element that asks for
 them

The translation of a unit, and its i18n:data, were reported at the position
of the last element inside the unit.
---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index fd6c2d3..a9e54ed 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -727,10 +727,12 @@ class TALInterpreter:
         currentTag = self._currentTag
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
+        position = self.position
         try:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+        self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
-- 
2.43.0


From abb1992e01c992f0fb93db12a6ddb5c965db2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:16 +0000
Subject: [PATCH 11/26] fix: Keep the position of a failure inside an i18n:name
 element

The position was reset to the i18n:name element while the failure was on its
way to the caller.
---
 src/zope/tal/talinterpreter.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a9e54ed..90599e0 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -666,19 +666,17 @@ class TALInterpreter:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
             state = self.saveState()
+            tmpstream = self.StringIO()
+            self.pushStream(tmpstream)
             try:
-                tmpstream = self.StringIO()
-                self.pushStream(tmpstream)
-                try:
-                    self.interpret(program)
-                finally:
-                    self.popStream()
-                if self.html and self._currentTag == "pre":
-                    value = tmpstream.getvalue()
-                else:
-                    value = normalize(tmpstream.getvalue())
+                self.interpret(program)
             finally:
-                self.restoreState(state)
+                self.popStream()
+            if self.html and self._currentTag == "pre":
+                value = tmpstream.getvalue()
+            else:
+                value = normalize(tmpstream.getvalue())
+            self.restoreState(state)
         else:
             # TODO: Seems like this branch not used anymore, we
             # need to remove it
-- 
2.43.0


From 13426a6896fc9a768cce1d40fdab537499d2c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:18 +0000
Subject: [PATCH 12/26] fix: Evaluate attributes of inserted structure at their
 own position

They were reported at a position inside the inserted text, as if it were a
position in the template.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 90599e0..80e0280 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -78,7 +78,7 @@ class AltTALGenerator(TALGenerator):
             taldict["attributes"] = "x x"
         TALGenerator.emitStartElement(self, name, attrlist,
                                       taldict, metaldict, i18ndict,
-                                      position, isend)
+                                      isend=isend)
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-- 
2.43.0


From 9d4866d25433a71504a09b7854761167f3bf4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:20 +0000
Subject: [PATCH 13/26] fix: End the translation unit of an element with
 tal:content

A following i18n:name outside of any unit was accepted by the compiler, and
failed when rendered.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e1bbb66..95859e8 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -791,6 +791,7 @@ class TALGenerator:
         # in case tal:content, i18n:translate and i18n:name in the same tag
         if not content and msgid is not None:
             self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From 2f08dce292edd9c24c9bfe7c7c3a07d7423f03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:23 +0000
Subject: [PATCH 14/26] fix: Use the given output stream even if it is false

A stream object that is false while empty was replaced by sys.stdout.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 80e0280..8e2f5a9 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -196,7 +196,7 @@ class TALInterpreter:
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
         self._currentTag = ""
-        self._stream_stack = [stream or sys.stdout]
+        self._stream_stack = [sys.stdout if stream is None else stream]
         self.popStream()
         self.debug = debug
         self.wrap = wrap
-- 
2.43.0


From 49d0150a61b600cbdc481434c99b0cd99ebfa50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:25 +0000
Subject: [PATCH 15/26] fix: Close the URL after parsing it

---
 src/zope/tal/xmlparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..e4cd08a 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -88,7 +88,8 @@ class XMLParser:
 
     def parseURL(self, url):
         """Parse the given URL."""
-        self.parseStream(urlopen(url))
+        with urlopen(url) as f:
+            self.parseStream(f)
 
     def parseStream(self, stream):
         """Parse the given stream (open file)."""
-- 
2.43.0


From d4047a406ea373d3cf6368c465b14e644335a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:36 +0000
Subject: [PATCH 16/26] fix: Warn about a conflicting default that equals the
 message id

Such a default is stored as None, and building the warning failed.
---
 src/zope/tal/talgettext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..f5d0495 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -114,6 +114,8 @@ class POEngine(DummyEngine):
             if msgid.default != existing_msgid.default:
                 references = '\n'.join([location[0] + ':' + str(location[1])
                                         for location in domain[msgid]])
+                bad, good = (id.default or id
+                             for id in (msgid, existing_msgid))
                 # Note: a lot of encode calls here are needed so
                 # it does not break.
                 warnings.warn(
@@ -123,8 +125,8 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     bad.encode('utf-8'),
+                     good.encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From b0b0e09ce596309ada480cd71612a5484b85dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:39 +0000
Subject: [PATCH 17/26] fix: Extract messages of elements with i18n:data

The place holder returned for the data is not a mapping.
---
 src/zope/tal/talgettext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index f5d0495..0ac71fd 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,8 +57,7 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
-            i18ndict.update(obj)
+        # The value of i18n:data (obj) is not known to the extractor.
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
         if msgid is None:
-- 
2.43.0


From 92c4bad8845744673815821171a3256c8078ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:08 +0000
Subject: [PATCH 18/26] fix: Honour i18n:domain="default" inside another domain

Naming the default domain had no effect, so its messages were looked up in
the enclosing domain.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 95859e8..e6d77f2 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -629,6 +629,7 @@ class TALGenerator:
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
             if (domain != DEFAULT_DOMAIN
+                or i18ndict.get("domain")
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From 7ab766fdfe0e44f6ca61b11753a4fd11cbdd0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:11 +0000
Subject: [PATCH 19/26] fix: Keep source annotations out of messages and script
 code

With sourceAnnotations on, the comment could end up in the text collected
for a translation or for server-side code, which changed the message id
or broke the code.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 8e2f5a9..d41b826 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -305,6 +305,11 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
+        if self._stream_stack:
+            # This is collected for a message or for code and must not
+            # contain comments; annotate what is output afterwards.
+            self.stream.write(s)
+            return
         idx = s.find('<?xml')
         if idx >= 0 or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
-- 
2.43.0


From 9c201f9cc96497e227b61b5a90b1bce5e825ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:36 +0000
Subject: [PATCH 20/26] fix: Do not write a source annotation for an empty
 write

An element that renders to nothing made the annotation for its template
appear in front of text from another template.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d41b826..9acc6af 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -311,7 +311,7 @@ class TALInterpreter:
             self.stream.write(s)
             return
         idx = s.find('<?xml')
-        if idx >= 0 or s.isspace():
+        if idx >= 0 or not s.strip():
             # Do not preprend comments in front of the <?xml?> declaration.
             end_of_doctype = s.find('?>', idx)
             if end_of_doctype > idx:
-- 
2.43.0


From 0be199a908560f537053cb465642e08bc3381441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:15 +0000
Subject: [PATCH 21/26] fix: Annotate the text of on-error elements where it
 comes from

The text of an element with tal:on-error was collected without source
annotations, and an annotation set up inside it, possibly for another
template, was then written in front of all of it.
---
 src/zope/tal/talinterpreter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 9acc6af..f23943f 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1006,8 +1006,10 @@ class TALInterpreter:
         units = len(self.i18nStack)
         names = dict(self.i18nStack[-1][0]) if units else {}
         source = self.sourceFile
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if not pending:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1018,6 +1020,7 @@ class TALInterpreter:
             exc = sys.exc_info()[1]
             try:
                 position = self.position
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 self.macroStack[:] = macros
                 self.inUseDirective = inUse
@@ -1042,8 +1045,14 @@ class TALInterpreter:
             finally:
                 engine.endScope()
         else:
+            # The text has its annotations; a pending one is for what follows.
+            pending = self._pending_source_annotation
+            self._pending_source_annotation = False
             self.restoreOutputState(state)
             self.stream_write(stream.getvalue())
+            if pending:
+                self._pending_source_annotation = True
+                self._stream_write = self._annotated_stream_write
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0


From 0174d74d1125d22762b9f5a27dc5144aa68044a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:00 +0000
Subject: [PATCH 22/26] fix: Let redefined global variables take effect at once

---
 src/zope/tal/dummyengine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..e83095f 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -77,7 +77,11 @@ class DummyEngine:
     def setLocal(self, name, value):
         if self.locals is self.stack[-1]:
             # Unmerge this scope's locals from previous scope of first set
-            self.locals = self.locals.copy()
+            if self.locals is self.globals:
+                # A copy would hide later definitions of global variables.
+                self.locals = {}
+            else:
+                self.locals = self.locals.copy()
         self.locals[name] = value
 
     def setGlobal(self, name, value):
-- 
2.43.0


From 0b1e2f3be30754f342c92f5caedb6efba9d592cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:03 +0000
Subject: [PATCH 23/26] fix: Keep the value of xmlns=""

The declaration was rendered as an attribute without a value, which is
not well-formed XML.
---
 src/zope/tal/talparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..8a11de2 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -117,7 +117,7 @@ class TALParser(XMLParser):
             if uri in self._namespaces:
                 item = (key, uri, "xmlns")
             else:
-                item = (key, uri)
+                item = (key, uri or "")
             newlist.append(item)
         self.nsNew = []
         return newlist
-- 
2.43.0


From 69a2cd08a30147535805a5b6e149d0b26faf10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:07 +0000
Subject: [PATCH 24/26] fix: Wrap attributes alike with source annotations on
 and off

After an on-error element the column was counted in text that contains
annotations, so that tags were wrapped elsewhere than without annotations.
---
 src/zope/tal/talinterpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index f23943f..fd8bb52 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -195,6 +195,7 @@ class TALInterpreter:
         self.engine = engine  # Execution engine (aka context)
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
+        self._annotations = set()
         self._currentTag = ""
         self._stream_stack = [sys.stdout if stream is None else stream]
         self.popStream()
@@ -323,7 +324,9 @@ class TALInterpreter:
                 return
         self._pending_source_annotation = False
         self._stream_write = self.stream.write
-        self._stream_write(self.formatSourceAnnotation())
+        annotation = self.formatSourceAnnotation()
+        self._annotations.add(annotation)
+        self._stream_write(annotation)
         self._stream_write(s)
 
     def formatSourceAnnotation(self):
@@ -338,6 +341,9 @@ class TALInterpreter:
     def stream_write(self, s,
                      len=len):
         self._stream_write(s)
+        for annotation in self._annotations:
+            # Annotations do not count for the layout.
+            s = s.replace(annotation, '')
         i = s.rfind('\n')
         if i < 0:
             self.col = self.col + len(s)
-- 
2.43.0


From 4c05072a3eebf9dc14ffc278f9bf760f5a8641c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:01 +0000
Subject: [PATCH 25/26] fix: Use the given expression compiler even if it is
 false

A compiler with a length of zero was replaced by the built-in one.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e6d77f2..7c24f6a 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -46,7 +46,7 @@ class TALGenerator:
             :class:`zope.tal.interfaces.ITALExpressionCompiler` to use.
             If not given, we'll use a simple, undocumented, compiler.
         """
-        if not expressionCompiler:
+        if expressionCompiler is None:
             from zope.tal.dummyengine import DummyEngine
             expressionCompiler = DummyEngine()
         self.expressionCompiler = expressionCompiler
-- 
2.43.0


From f8d3b90431b6c8cf1c3dd48e4982768deceab781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:01:22 +0000
Subject: [PATCH 26/26] fix: Reject HTML that ends inside a tag

The HTML parser of recent Python versions drops an unfinished tag at the
end of its input, so that truncated markup was inserted in part.
---
 src/zope/tal/htmltalparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..6da051e 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -15,6 +15,7 @@
 Parse HTML and compile to :class:`~.TALInterpreter` intermediate code, using
 a :class:`~.TALGenerator`.
 """
+import re
 from html.parser import HTMLParser
 
 from zope.tal.taldefs import ZOPE_I18N_NS
@@ -44,6 +45,8 @@ class HTMLParseError(Exception):
         return result
 
 
+_unfinished = re.compile(r'</?[a-zA-Z]|<!\[').match
+
 _html_parser_extras = {}
 if 'convert_charrefs' in HTMLParser.__init__.__code__.co_names:
     _html_parser_extras['convert_charrefs'] = False  # pragma: NO COVER
@@ -169,6 +172,9 @@ class HTMLTALParser(HTMLParser):
     def parseString(self, data):
         """Parse data in the given string."""
         self.feed(data)
+        if self.cdata_elem is None and _unfinished(self.rawdata):
+            # close() would lose it silently.
+            raise HTMLParseError('End of input inside a tag', self.getpos())
         self.close()
         while self.tagstack:
             self.implied_endtag(self.tagstack[-1], 2)
-- 
2.43.0

