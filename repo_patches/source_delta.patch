From 05de583111676c3e46a13c227b7714e2d74b2151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:43 +0000
Subject: [PATCH 01/52] fix: do not consume the attribute replacements of a
 compiled template

tal:replace="structure ..." combined with tal:attributes emptied the
replacement table stored in the compiled program.  The second rendering of
the same program lost the replaced attributes.
---
 src/zope/tal/talinterpreter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..e19396d 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -82,7 +82,9 @@ class AltTALGenerator(TALGenerator):
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-            repldict = self.repldict
+            # Copy, since replaceAttrs consumes the dictionary, and this one
+            # belongs to the compiled program.
+            repldict = self.repldict.copy()
             self.repldict = None
         return TALGenerator.replaceAttrs(self, attrlist, repldict)
 
-- 
2.43.0


From eae30aecd95f333ec734b6c9d60de0075941f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:44 +0000
Subject: [PATCH 02/52] fix: accept a script element with a valueless type
 attribute

<script type> made the HTML compiler fail with an AttributeError.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..67d7b92 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if type_attr and (type_attr[0][1]
+                              or '').startswith('text/server-'):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From 5383841c3ba304517e10257dd80293b6b4e1a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:46 +0000
Subject: [PATCH 03/52] fix: close a translation unit that also has tal:content

The compiler kept treating what followed such an element as part of a
translation unit.  A misplaced i18n:name was then accepted and failed with
an IndexError when rendered.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..e011235 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -790,6 +790,7 @@ class TALGenerator:
         # in case tal:content, i18n:translate and i18n:name in the same tag
         if not content and msgid is not None:
             self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From f933f5f5095ef54176acab9b41d9f126094575d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:17 +0000
Subject: [PATCH 04/52] fix: forget macros in progress when an error inside
 them is handled

When an error inside a macro was handled by tal:on-error, the interpreter
still believed it was rendering that macro.  Slots defined later were filled
with the fillers of the failed use, and the source file stayed that of the
macro.
---
 src/zope/tal/talinterpreter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index e19396d..d6dd541 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -996,6 +996,9 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        macroStack = self.macroStack[:]
+        inUseDirective = self.inUseDirective
+        sourceFile = self.sourceFile
         self.stream = stream = self.StringIO()
         self._stream_write = stream.write
         try:
@@ -1009,6 +1012,12 @@ class TALInterpreter:
             try:
                 self.restoreState(state)
                 engine = self.engine
+                # The error may have occurred inside macros or slots.
+                self.macroStack[:] = macroStack
+                self.inUseDirective = inUseDirective
+                if self.sourceFile != sourceFile:
+                    self.sourceFile = sourceFile
+                    engine.setSourceFile(sourceFile)
                 engine.beginScope()
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From 0065a652c406f2045572a8c55bb96f0d93d8ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:19 +0000
Subject: [PATCH 05/52] fix: leave a translation unit cleanly when its
 rendering fails

When an error inside a translation unit was handled by tal:on-error, later
named parts were recorded in the failed unit.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d6dd541..6365a07 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -733,6 +733,7 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -742,7 +743,6 @@ class TALInterpreter:
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From fa050792d8483e9bb35a04e8f7871a8fa89880cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:20 +0000
Subject: [PATCH 06/52] fix: render xmlns="" with its empty value

The declaration was rendered without a value, which is not well-formed XML.
---
 src/zope/tal/talparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..8a11de2 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -117,7 +117,7 @@ class TALParser(XMLParser):
             if uri in self._namespaces:
                 item = (key, uri, "xmlns")
             else:
-                item = (key, uri)
+                item = (key, uri or "")
             newlist.append(item)
         self.nsNew = []
         return newlist
-- 
2.43.0


From 363ca7ec0e40d49f13bdfb84d05d1176b1e852c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:21 +0000
Subject: [PATCH 07/52] fix: keep the prefix with which an XML name was written

When two prefixes were bound to one namespace, names were rendered with the
prefix declared last.  An attribute could lose its namespace, and a prefix
rebound by an inner element could move names to another namespace.
---
 src/zope/tal/talparser.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 8a11de2..d564b08 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -15,7 +15,6 @@
 Parse XML and compile to :class:`~.TALInterpreter` intermediate code,
 using a :class:`~.TALGenerator`.
 """
-from zope.tal.taldefs import XML_NS
 from zope.tal.taldefs import ZOPE_I18N_NS
 from zope.tal.taldefs import ZOPE_METAL_NS
 from zope.tal.taldefs import ZOPE_TAL_NS
@@ -44,8 +43,8 @@ class TALParser(XMLParser):
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
-        self.nsStack = []
-        self.nsDict = {XML_NS: 'xml'}
+        # Report names as "uri name prefix"
+        self.parser.namespace_prefixes = 1
         self.nsNew = []
 
     def getCode(self):
@@ -53,13 +52,8 @@ class TALParser(XMLParser):
         return self.gen.getCode()
 
     def StartNamespaceDeclHandler(self, prefix, uri):
-        self.nsStack.append(self.nsDict.copy())
-        self.nsDict[uri] = prefix
         self.nsNew.append((prefix, uri))
 
-    def EndNamespaceDeclHandler(self, prefix):
-        self.nsDict = self.nsStack.pop()
-
     def StartElementHandler(self, name, attrs):
         if self.ordered_attributes:
             # attrs is a list of alternating names and values
@@ -124,11 +118,10 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            uri, name, *prefix = name.split(' ')
             prefixed = name
             if prefix:
-                prefixed = f"{prefix}:{name}"
+                prefixed = f"{prefix[0]}:{name}"
             ns = self._namespaces.get(uri, "x")
             return (prefixed, name, ns)
         return (name, name, None)
-- 
2.43.0


From 7f89dd007f1307e15db7e6d1304e4c55bbc19f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:53 +0000
Subject: [PATCH 08/52] fix: translate boolean HTML attributes without an
 expression

Listing a boolean attribute in i18n:attributes made the interpreter evaluate
an expression that does not exist.
---
 src/zope/tal/talinterpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6365a07..d1e8313 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -488,7 +488,8 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if (expr is not None and self.html
+                and name.lower() in BOOLEAN_HTML_ATTRS):
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
-- 
2.43.0


From 200ee793bb653cab9021ae7d580b32c05dcff182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:55 +0000
Subject: [PATCH 09/52] fix: do not translate attributes that have no value

i18n:attributes naming an attribute that is absent or has no value asked for
the translation of None.  An absent attribute is now left out, and one
without a value is kept as it is, unless a message id is given.
---
 src/zope/tal/talinterpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d1e8313..d622da2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -507,6 +507,12 @@ class TALInterpreter:
                 if evalue is None:
                     ok = 0
                 value = evalue
+        elif value is None and not msgid:
+            # Nothing to translate
+            if action == 'insert':
+                ok = 0
+            else:
+                return [name]
 
         if ok:
             if xlat:
-- 
2.43.0


From a8325ff3c5a8f3bc661d07e07f9032673463811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:56 +0000
Subject: [PATCH 10/52] fix: report i18n:data="structure ..." as a template
 error

The compiler failed with an AssertionError without position.
---
 src/zope/tal/talgenerator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e011235..ed46d2b 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -357,7 +357,10 @@ class TALGenerator:
         else:
             key, expr = parseSubstitution(i18ndata)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
+            if key != 'text':
+                raise I18NError(
+                    "i18n:data can't be a structure: %r" % i18ndata,
+                    self.position)
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 896dd01ebc8f19b2a8bbcd1505840a434c4f0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:57 +0000
Subject: [PATCH 11/52] fix: keep source annotations out of captured text

An annotation that was due inside a translation unit became part of the
message id, and one due before inline code became part of the code.  It is
now written before the next direct output.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d622da2..ce2e535 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -307,6 +307,10 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
+        if self._stream_stack:
+            # The output is being captured as a message or as code.
+            self.stream.write(s)
+            return
         idx = s.find('<?xml')
         if idx >= 0 or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
-- 
2.43.0


From 29fc38140870eae63fa6301206275435f024339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:58 +0000
Subject: [PATCH 12/52] fix: extract a message that occurs with and without a
 default

The warning about differing defaults failed with an AttributeError when one
of the two defaults was missing.
---
 src/zope/tal/talgettext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..4e21ee4 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,8 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     str(msgid.default).encode('utf-8'),
+                     str(existing_msgid.default).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From 11ae83a68e51ae953b23cc2fdfe5d5bf96439e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:00 +0000
Subject: [PATCH 13/52] fix: report the position of errors in tal:attributes

Bad syntax and duplicate names were reported without line and column.
---
 src/zope/tal/taldefs.py      | 7 ++++---
 src/zope/tal/talgenerator.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..4f76bb5 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -138,17 +138,18 @@ _attr_re = re.compile(r"\s*([^\s]+)\s+([^\s].*)\Z", re.S)
 _subst_re = re.compile(r"\s*(?:(text|structure)\s+)?(.*)\Z", re.S)
 
 
-def parseAttributeReplacements(arg, xml):
+def parseAttributeReplacements(arg, xml, position=(None, None)):
     attr_dict = {}
     for part in splitParts(arg):
         m = _attr_re.match(part)
         if not m:
-            raise TALError("Bad syntax in attributes: %r" % part)
+            raise TALError("Bad syntax in attributes: %r" % part, position)
         name, expr = m.groups()
         if not xml:
             name = name.lower()
         if name in attr_dict:
-            raise TALError("Duplicate attribute name in attributes: %r" % part)
+            raise TALError("Duplicate attribute name in attributes: %r" % part,
+                           position)
         attr_dict[name] = expr
     return attr_dict
 
diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index ed46d2b..039f82f 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -691,8 +691,8 @@ class TALGenerator:
             self.pushProgram()
         if attrsubst or i18nattrs:
             if attrsubst:
-                repldict = taldefs.parseAttributeReplacements(attrsubst,
-                                                              self.xml)
+                repldict = taldefs.parseAttributeReplacements(
+                    attrsubst, self.xml, self.position)
             else:
                 repldict = {}
             if i18nattrs:
-- 
2.43.0


From 4e325a9c2fe8a9f0628f17b73d3a3e6637c5fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:01 +0000
Subject: [PATCH 14/52] fix: restore the source position after nested elements

From the second iteration of a loop on, and for i18n:data, expressions of an
element were reported at the position of the last element inside it.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ce2e535..ef0559c 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -738,6 +738,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        position = self.position
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -745,6 +746,7 @@ class TALInterpreter:
         finally:
             self.popStream()
             self.i18nStack.pop()
+        self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
         # the top of the i18nStack.
@@ -854,8 +856,10 @@ class TALInterpreter:
 
     def do_loop_tal(self, stuff):
         (name, expr, block) = stuff
+        position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
+            self.do_setPosition(position)
             self.interpret(block)
     bytecode_handlers["loop"] = do_loop
 
-- 
2.43.0


From c84979b706cc050565646742154c24e4412fe6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:02 +0000
Subject: [PATCH 15/52] fix: report attribute replacements of a structure at
 their own position

tal:attributes with tal:replace="structure ..." was evaluated at a position
inside the inserted text.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ef0559c..ae95617 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -78,7 +78,7 @@ class AltTALGenerator(TALGenerator):
             taldict["attributes"] = "x x"
         TALGenerator.emitStartElement(self, name, attrlist,
                                       taldict, metaldict, i18ndict,
-                                      position, isend)
+                                      isend=isend)
 
     def replaceAttrs(self, attrlist, repldict):
         if self.enabled and self.repldict:
-- 
2.43.0


From 21a8e806fd854bc7b3eda40468a09c43aff4aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:04 +0000
Subject: [PATCH 16/52] fix: look up local variables before globals in
 DummyEngine.getValue

getValue() returned the global value of a name that a local variable
shadows.
---
 src/zope/tal/dummyengine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 593e8b4..6341b7e 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -84,10 +84,9 @@ class DummyEngine:
         self.globals[name] = value
 
     def getValue(self, name, default=None):
-        value = self.globals.get(name, default)
-        if value is default:
-            value = self.locals.get(name, default)
-        return value
+        if name in self.locals:
+            return self.locals[name]
+        return self.globals.get(name, default)
 
     def evaluate(self, expression):
         assert expression.startswith("$") and expression.endswith("$"), \
-- 
2.43.0


From 24561e4da073e83d2995edf2a85c570975406d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:05 +0000
Subject: [PATCH 17/52] fix: do not shadow globals with stale copies in
 DummyEngine

The first local variable of a scope copied all globals into the locals.  A
global changed afterwards kept its old value in that scope.
---
 src/zope/tal/dummyengine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 6341b7e..9d1335a 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -46,8 +46,9 @@ class DummyEngine:
             macros = {}
         self.macros = macros
         dict = {'nothing': None, 'default': Default}
-        self.locals = self.globals = dict
-        self.stack = [dict]
+        self.globals = dict
+        self.locals = {}
+        self.stack = [self.locals]
         self.translationDomain = DummyTranslationDomain()
         self.useEngineAttrDicts = False
 
-- 
2.43.0


From 4a69c985c06eb136191bdf61b4a50c253937c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:06 +0000
Subject: [PATCH 18/52] fix: honour TAL statements on server-side script
 elements

Statements such as tal:condition on such a script were dropped and the code
was run regardless.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 67d7b92..51f7225 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -197,7 +197,8 @@ class HTMLTALParser(HTMLParser):
             if type_attr and (type_attr[0][1]
                               or '').startswith('text/server-'):
                 attrlist.remove(type_attr[0])
-                taldict = {'script': type_attr[0][1], 'omit-tag': ''}
+                taldict['script'] = type_attr[0][1]
+                taldict['omit-tag'] = ''
         self.tagstack.append(tag)
         self.gen.emitStartElement(tag, attrlist, taldict, metaldict, i18ndict,
                                   self.getpos())
-- 
2.43.0


From 48a5f6d78425b9a39cf4a9b1b198105feea2d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:07 +0000
Subject: [PATCH 19/52] fix: stay in XML mode after inserting a structure

Inserting a structure into an XML document switched the interpreter to HTML
for the rest of the rendering.  Later empty elements, boolean attributes and
structures were treated as HTML, and XML macros were refused.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ae95617..10598f1 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -824,7 +824,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From c13f2911f584ab54fdd7f214e6293cd600c55ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:08 +0000
Subject: [PATCH 20/52] fix: keep marked sections in HTML

Sections such as <![CDATA[...]]> and <![if IE]> were dropped from the
output.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 51f7225..a8bc797 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -299,6 +299,11 @@ class HTMLTALParser(HTMLParser):
     def handle_decl(self, data):
         self.gen.emitRawText("<!%s>" % data)
 
+    def unknown_decl(self, data):
+        # A marked section, e.g. <![CDATA[...]]> or <![endif]>
+        end = "]]>" if "[" in data else "]>"
+        self.gen.emitRawText(f"<![{data}{end}")
+
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
-- 
2.43.0


From 022efa9903ad75e6e40579c4d4746948257814e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:27 +0000
Subject: [PATCH 21/52] fix: do not translate a true boolean attribute without
 a message id

A boolean attribute set by tal:attributes and listed in i18n:attributes
asked for the translation of None.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 10598f1..85aa211 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -519,7 +519,7 @@ class TALInterpreter:
                 return [name]
 
         if ok:
-            if xlat:
+            if xlat and (msgid or value is not None):
                 translated = self.translate(msgid or value, value)
                 if translated is not None:
                     value = translated
-- 
2.43.0


From 315344d4058098db137d0e7c64768d376f5b1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:22 +0000
Subject: [PATCH 22/52] fix: render empty XML elements of the template
 namespaces

An element such as <tal:block/> without attributes made the rendering fail
with a TypeError.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 039f82f..cad5af3 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -256,7 +256,8 @@ class TALGenerator:
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
         start = self.popProgram()  # start tag
-        if (isend or not program) and self.xml:
+        if ((isend or not program) and self.xml
+                and start[-1][0] == "startTag"):
             # Minimize empty element
             start[-1] = ("startEndTag",) + start[-1][1:]
             isend = 1
-- 
2.43.0


From a9c2612e3f14af232e54ab6dadd9ce7dfbce3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:08 +0000
Subject: [PATCH 23/52] fix: restore the source position before advancing a
 loop

A failure to fetch the next item was reported at the position of the last
element inside the loop.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 85aa211..0a3a8df 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -859,8 +859,8 @@ class TALInterpreter:
         position = self.position
         iterator = self.engine.setRepeat(name, expr)
         while next(iterator):
-            self.do_setPosition(position)
             self.interpret(block)
+            self.do_setPosition(position)
     bytecode_handlers["loop"] = do_loop
 
     def translate(self, msgid, default=None, i18ndict=None,
-- 
2.43.0


From c08e4223b667759ac139f1e054a7df7765c6818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:07 +0000
Subject: [PATCH 24/52] fix: honour i18n:domain="default" inside another domain

Naming the default domain explicitly had no effect, and the messages were
looked up in the domain of the enclosing element.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index cad5af3..56e2a49 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -632,6 +632,7 @@ class TALGenerator:
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
             if (domain != DEFAULT_DOMAIN
+                or i18ndict.get("domain")
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From 9d244519322bfa2cc6f56e0525990deb74a4b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:53 +0000
Subject: [PATCH 25/52] fix: do not translate content when TAL processing is
 off

With TAL processing turned off a template is reproduced with its
directives, but the content of translation units was nevertheless
translated and named parts were replaced by their placeholders.  Translated
attributes were already left alone.
---
 src/zope/tal/talinterpreter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 0a3a8df..32eebed 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -721,9 +721,13 @@ class TALInterpreter:
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
         self._stream_write(placeholder)
-    bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers['i18nVariable'] = do_insertTranslation
+    bytecode_handlers['insertTranslation'] = do_insertTranslation
+
+    def do_insertTranslation_tal(self, stuff):
         i18ndict = {}
         srepr = []
         obj = None
@@ -767,7 +771,6 @@ class TALInterpreter:
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
         self._stream_write(xlated_msgid)
-    bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
         self.interpret(stuff[2])
@@ -1058,6 +1061,8 @@ class TALInterpreter:
     bytecode_handlers_tal["insertI18nStructure"] = do_insertI18nStructure_tal
     bytecode_handlers_tal["insertText"] = do_insertText_tal
     bytecode_handlers_tal["insertI18nText"] = do_insertI18nText_tal
+    bytecode_handlers_tal["i18nVariable"] = do_i18nVariable
+    bytecode_handlers_tal["insertTranslation"] = do_insertTranslation_tal
     bytecode_handlers_tal["loop"] = do_loop_tal
     bytecode_handlers_tal["onError"] = do_onError_tal
     bytecode_handlers_tal["<attrAction>"] = attrAction_tal
-- 
2.43.0


From 7a78ad9bbd55fd1f981c87d567490e8c7859bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:13 +0000
Subject: [PATCH 26/52] fix: keep other marked sections in HTML

Only a CDATA section ends with two brackets; in all other marked
sections the parser keeps the inner bracket in the data, so it was
written twice.
---
 src/zope/tal/htmltalparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index a8bc797..2964db4 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -301,7 +301,7 @@ class HTMLTALParser(HTMLParser):
 
     def unknown_decl(self, data):
         # A marked section, e.g. <![CDATA[...]]> or <![endif]>
-        end = "]]>" if "[" in data else "]>"
+        end = "]]>" if data.startswith("CDATA[") else "]>"
         self.gen.emitRawText(f"<![{data}{end}")
 
     def handle_pi(self, data):
-- 
2.43.0


From 927814c9d3b387f0c5bfe6c397cb33e4e283524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:02 +0000
Subject: [PATCH 27/52] fix: do not run server-side scripts when TAL processing
 is off

Expanding the macros of a template or reproducing its source ran the
code of all server-side script elements.
---
 src/zope/tal/talinterpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 32eebed..1183785 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -839,6 +839,10 @@ class TALInterpreter:
         self.interpret(program)
 
     def do_evaluateCode(self, stuff):
+        self.interpret(stuff[1])
+    bytecode_handlers["evaluateCode"] = do_evaluateCode
+
+    def do_evaluateCode_tal(self, stuff):
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
@@ -851,7 +855,6 @@ class TALInterpreter:
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
         self._stream_write(output)
-    bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
         (name, expr, block) = stuff
@@ -1055,6 +1058,7 @@ class TALInterpreter:
     bytecode_handlers_tal = bytecode_handlers.copy()
     bytecode_handlers_tal["rawtextBeginScope"] = do_rawtextBeginScope_tal
     bytecode_handlers_tal["beginScope"] = do_beginScope_tal
+    bytecode_handlers_tal["evaluateCode"] = do_evaluateCode_tal
     bytecode_handlers_tal["setLocal"] = do_setLocal_tal
     bytecode_handlers_tal["setGlobal"] = do_setGlobal_tal
     bytecode_handlers_tal["insertStructure"] = do_insertStructure_tal
-- 
2.43.0


From e4c196e424c4b3c048e43f9c44bca222fafa64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:48 +0000
Subject: [PATCH 28/52] fix: render named parts outside a translation unit in
 place

A named part can be rendered while no translation unit is open: inside a
macro defined within a unit but used elsewhere, or inside content that is
kept because the content expression yields default.  This failed with
IndexError.  The part is now simply rendered.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1183785..551028e 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -675,6 +675,10 @@ class TALInterpreter:
 
     def do_i18nVariable(self, stuff):
         varname, program, expression, structure = stuff
+        if not self.i18nStack:
+            # No translation unit is open, so there is nothing to name.
+            self.interpret(program)
+            return
         if expression is None:
             # The value is implicitly the contents of this tag, so we have to
             # evaluate the mini-program to get the value of the variable.
-- 
2.43.0


From 634fa562dab7dbb6057dcf8f6954fcd0b9ca5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:50 +0000
Subject: [PATCH 29/52] fix: accept foreign attributes on template elements in
 HTML

An attribute with the prefix of another namespace on an element such as
<tal:block> was taken for a directive and refused as unknown.  XML
templates already ignore such attributes.
---
 src/zope/tal/htmltalparser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 2964db4..ecf7506 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -335,10 +335,12 @@ class HTMLTALParser(HTMLParser):
                 nsuri = self.nsdict.get(suffix)
                 if nsuri in self._namespaces:
                     return name, name, prefix
-            else:
-                nsuri = self.nsdict.get(prefix)
-                if nsuri in self._namespaces:
-                    return name, suffix, self._namespaces[nsuri]
+                return name, name, 'unknown'
+            nsuri = self.nsdict.get(prefix)
+            if nsuri in self._namespaces:
+                return name, suffix, self._namespaces[nsuri]
+            if nsuri or prefix == 'xml':
+                return name, name, 'unknown'
         return name, name, 0
 
     def process_ns(self, name, attrs):
-- 
2.43.0


From 79f409f48dce3eb49dd46652e17902913711d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:31 +0000
Subject: [PATCH 30/52] fix: keep a pending source annotation across error
 handlers

An annotation that was due when an element with an error handler began was
written only after that element, with the position of its end, and was lost
when the element failed after writing it.
---
 src/zope/tal/talinterpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 551028e..ba56bd3 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1024,8 +1024,12 @@ class TALInterpreter:
         macroStack = self.macroStack[:]
         inUseDirective = self.inUseDirective
         sourceFile = self.sourceFile
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if pending:
+            self._stream_write = self._annotated_stream_write
+        else:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1035,6 +1039,7 @@ class TALInterpreter:
         except BaseException:
             exc = sys.exc_info()[1]
             try:
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 engine = self.engine
                 # The error may have occurred inside macros or slots.
-- 
2.43.0


From 760eb41425aa5161c082dc85e843e9ec4ac175ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:55 +0000
Subject: [PATCH 31/52] fix: write an annotation due after a guarded element
 behind it

The output of an element with an error handler is collected and written when
the element is complete.  A source annotation that became due at its end was
written in front of that output instead of behind it.
---
 src/zope/tal/talinterpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ba56bd3..ca60135 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1061,7 +1061,11 @@ class TALInterpreter:
                 engine.endScope()
         else:
             self.restoreOutputState(state)
+            # An annotation that is due now belongs to what follows.
+            write = self._stream_write
+            self._stream_write = self.stream.write
             self.stream_write(stream.getvalue())
+            self._stream_write = write
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0


From 2559b01bce7189b95c900b71ee4a26270c3471ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:06 +0000
Subject: [PATCH 32/52] fix: do not wrap attributes in message ids taken from
 pre elements

White space in the content of a pre element is part of its message id.
Line breaks inserted between attributes made the id depend on the wrap
width and on the column where a tag happened to start.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index ca60135..6f82f85 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -747,6 +747,10 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         position = self.position
+        wrap = self.wrap
+        if self.html and currentTag == "pre":
+            # White space matters in the message id.
+            self.wrap = 0
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -754,6 +758,7 @@ class TALInterpreter:
         finally:
             self.popStream()
             self.i18nStack.pop()
+            self.wrap = wrap
         self.do_setPosition(position)
         # We only care about the evaluated contents if we need an implicit
         # message id.  All other useful information will be in the i18ndict on
-- 
2.43.0


From e8516eac188c750994065a5a6ea4d8f80f7b3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:46 +0000
Subject: [PATCH 33/52] fix: extract messages from elements with i18n:data

While extracting, the data is a string that stands for dynamic content.
It was used as a mapping, so that extraction failed with ValueError.
---
 src/zope/tal/talgettext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 4e21ee4..b79c265 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,7 +57,8 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
+        # The data is usually just a marker for dynamic content.
+        if obj and hasattr(obj, 'keys'):
             i18ndict.update(obj)
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
-- 
2.43.0


From 3a3fed046b2f4eb3ae7fb595f22bafaf139f34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:48 +0000
Subject: [PATCH 34/52] fix: keep NUL characters in multi-part statements

NUL was used as a stand-in for doubled semicolons while splitting, so that
it was replaced by a semicolon in expressions that contain it.
---
 src/zope/tal/taldefs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 4f76bb5..c530074 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -167,9 +167,11 @@ def parseSubstitution(arg, position=(None, None)):
 def splitParts(arg):
     # Break in pieces at undoubled semicolons and
     # change double semicolons to singles:
-    arg = arg.replace(";;", "\0")
-    parts = arg.split(';')
-    parts = [p.replace("\0", ";") for p in parts]
+    parts = [""]
+    for i, chunk in enumerate(arg.split(";;")):
+        first, *rest = chunk.split(";")
+        parts[-1] += ";" + first if i else first
+        parts.extend(rest)
     if len(parts) > 1 and not parts[-1].strip():
         del parts[-1]  # It ended in a semicolon
     return parts
-- 
2.43.0


From 19e93e5b24d962556c23ef45afb874c0538b2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:50 +0000
Subject: [PATCH 35/52] fix: accept white space after a trailing semicolon in
 i18n:attributes

The other multi-part statements allow it.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 56e2a49..ee6b60b 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -846,7 +846,7 @@ def _parseI18nAttributes(i18nattrs, position, xml):
     # Filter out empty items, eg:
     # i18n:attributes="value msgid; name msgid2;"
     # would result in 3 items where the last one is empty
-    attrs = [spec for spec in i18nattrs.split(";") if spec]
+    attrs = [spec for spec in i18nattrs.split(";") if spec.strip()]
     for spec in attrs:
         parts = spec.split()
         if len(parts) == 2:
-- 
2.43.0


From 86dfa259077932dc9b096697bb7d8e3cac695399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:51 +0000
Subject: [PATCH 36/52] fix: evaluate not: expressions in DummyEngine

The inner expression was evaluated without being compiled, which failed an
assertion.
---
 src/zope/tal/dummyengine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index 9d1335a..ae4d225 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -105,7 +105,7 @@ class DummyEngine:
         if type in ("path", "var", "global", "local"):
             return self.evaluatePathOrVar(expr)
         if type == "not":
-            return not self.evaluate(expr)
+            return not self.evaluate(self.compile(expr))
         if type == "exists":
             return expr in self.locals or expr in self.globals
         if type == "python":
-- 
2.43.0


From 44aad50524eb2d22aa5ac24c3ac33729c3133b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:43 +0000
Subject: [PATCH 37/52] fix: ignore the declared encoding of XML given as text

Text was encoded as UTF-8 but then decoded as the XML declaration says, so
that it was garbled or refused.  Expat accepts text and knows that the
declaration does not apply to it.
---
 src/zope/tal/xmlparser.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/zope/tal/xmlparser.py b/src/zope/tal/xmlparser.py
index f4891f9..dcc8c46 100644
--- a/src/zope/tal/xmlparser.py
+++ b/src/zope/tal/xmlparser.py
@@ -79,11 +79,6 @@ class XMLParser:
 
     def parseString(self, s):
         """Parse the given string."""
-        if isinstance(s, str):
-            # Expat cannot deal with str, only with
-            # bytes.  Also, its range of encodings is rather
-            # limited, UTF-8 is the safest bet here.
-            s = s.encode('utf-8')
         self.parser.Parse(s, 1)
 
     def parseURL(self, url):
-- 
2.43.0


From abd465bd606244e5ebffa5a8c90b1250eb0dec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:18 +0000
Subject: [PATCH 38/52] fix: ignore white space around the name in exists:
 expressions

DummyEngine ignores it in path expressions, too.  White space before the
separator of a multi-part statement belongs to the expression.
---
 src/zope/tal/dummyengine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index ae4d225..d704df6 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -107,6 +107,7 @@ class DummyEngine:
         if type == "not":
             return not self.evaluate(self.compile(expr))
         if type == "exists":
+            expr = expr.strip()
             return expr in self.locals or expr in self.globals
         if type == "python":
             try:
-- 
2.43.0


From 7e136456e4a57cf845bfe4bd33799c72f2f00050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:18 +0000
Subject: [PATCH 39/52] fix: keep variables set by inline code in their scope
 in DummyEngine

They leaked to the outer scope when no other variable had been set in the
inner one.
---
 src/zope/tal/dummyengine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/dummyengine.py b/src/zope/tal/dummyengine.py
index d704df6..80376a2 100644
--- a/src/zope/tal/dummyengine.py
+++ b/src/zope/tal/dummyengine.py
@@ -243,7 +243,8 @@ class DummyEngine:
         self.codeLocals = locals
         self.codeGlobals = globals
 
-        self.locals.update(locals)
+        for name, value in locals.items():
+            self.setLocal(name, value)
         self.globals.update(globals)
 
         return result.getvalue()
-- 
2.43.0


From 300538ead6dde49cf549e7792c28dd2ad5e9c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:01 +0000
Subject: [PATCH 40/52] fix: keep the end of an inserted XML structure that
 ends in "]"

The parser holds back a trailing bracket or carriage return until it sees
what follows.  By then the generator had been switched off, so the end of
the inserted text was lost.
---
 src/zope/tal/talinterpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6f82f85..62c9ec1 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -842,8 +842,11 @@ class TALInterpreter:
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
         gen.enable(1)
         p.parseFragment(text)  # Raises an exception if text is invalid
+        # The parser may hold back the end of the text until it is known
+        # what follows.
+        p.parseFragment('</foo')
         gen.enable(0)
-        p.parseFragment('</foo>', 1)
+        p.parseFragment('>', 1)
         program, macros = gen.getCode()
         self.interpret(program)
 
-- 
2.43.0


From c1b29bd9f6dc1bf0202e650815afbe065520260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:41 +0000
Subject: [PATCH 41/52] fix: describe every handled exception in ErrorInfo

Error handlers also see exceptions that do not derive from Exception.
For these the error variable had the instance as its type and no value.
---
 src/zope/tal/taldefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index c530074..15b81f0 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -124,7 +124,7 @@ class ErrorInfo:
     """
 
     def __init__(self, err, position=(None, None)):
-        if isinstance(err, Exception):
+        if isinstance(err, BaseException):
             self.type = err.__class__
             self.value = err
         else:
-- 
2.43.0


From 018a6c604fdbf4d4462bd0c42212d0f5b947fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:56 +0000
Subject: [PATCH 42/52] fix: run inline code at the position of its own element

When the body of a code element contained other elements, the code was
evaluated with the source position of the last of them.
---
 src/zope/tal/talinterpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 62c9ec1..e4987b4 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -856,6 +856,7 @@ class TALInterpreter:
 
     def do_evaluateCode_tal(self, stuff):
         lang, program = stuff
+        position = self.position
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         tmpstream = self.StringIO()
@@ -864,6 +865,7 @@ class TALInterpreter:
             self.interpret(program)
         finally:
             self.popStream()
+        self.do_setPosition(position)
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
         self._stream_write(output)
-- 
2.43.0


From 768faf06e54b7baaa12f5a48253a3133c07f0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:41 +0000
Subject: [PATCH 43/52] fix: track the column across translations and inline
 code

After a translation or a block of inline code the interpreter went on with
the column of the captured text instead of that of the text it had written,
so attributes of following start tags were wrapped at the wrong place.
---
 src/zope/tal/talinterpreter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index e4987b4..064fcb2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -747,6 +747,7 @@ class TALInterpreter:
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
         position = self.position
+        col = self.col
         wrap = self.wrap
         if self.html and currentTag == "pre":
             # White space matters in the message id.
@@ -779,7 +780,8 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.col = col
+        self.stream_write(xlated_msgid)
 
     def do_insertStructure(self, stuff):
         self.interpret(stuff[2])
@@ -857,6 +859,7 @@ class TALInterpreter:
     def do_evaluateCode_tal(self, stuff):
         lang, program = stuff
         position = self.position
+        col = self.col
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         tmpstream = self.StringIO()
@@ -868,7 +871,8 @@ class TALInterpreter:
         self.do_setPosition(position)
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.col = col
+        self.stream_write(output)
 
     def do_loop(self, stuff):
         (name, expr, block) = stuff
-- 
2.43.0


From 8e31ca30287f9f1f2a5a73b125a6aa86346c8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:43 +0000
Subject: [PATCH 44/52] fix: do not wrap attributes inside inline code

The code handed to the engine depended on the wrap width when its body
contained elements with directives.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 064fcb2..b27979f 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -862,12 +862,15 @@ class TALInterpreter:
         col = self.col
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        wrap = self.wrap
+        self.wrap = 0
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
             self.interpret(program)
         finally:
             self.popStream()
+            self.wrap = wrap
         self.do_setPosition(position)
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-- 
2.43.0


From 32cb4d8f544e6262956390aed1d5d7c2ff383451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:04 +0000
Subject: [PATCH 45/52] fix: keep error text of empty TAL elements when
 directives are shown

An element in the TAL namespace written as an empty element, with
tal:on-error, lost its error text and its end tag when an error was
handled while directives are shown.  The handler always has content, so
it is never the empty form of the element.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index ee6b60b..108adc4 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -297,7 +297,8 @@ class TALGenerator:
             assert key == "structure"
             self.emit("insertStructure", cexpr, {}, [])
         if TALtag:
-            self.emitOptTag(name, (None, 1), isend)
+            # The error text is the content, even of an empty element.
+            self.emitOptTag(name, (None, 1), 0)
         else:
             self.emitEndTag(name)
         handler = self.popProgram()
-- 
2.43.0


From 01873e91e0aed75fc12a72792496bc0da242a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:27 +0000
Subject: [PATCH 46/52] fix: restore the macro name for error handlers around a
 macro use

When an error inside a macro was handled outside of it, the handler still saw
the name of the failed macro in the variable "macroname".
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index b27979f..4159d56 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1041,6 +1041,7 @@ class TALInterpreter:
         macroStack = self.macroStack[:]
         inUseDirective = self.inUseDirective
         sourceFile = self.sourceFile
+        macroName = self.engine.getValue('macroname')
         pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
         if pending:
@@ -1066,6 +1067,8 @@ class TALInterpreter:
                     self.sourceFile = sourceFile
                     engine.setSourceFile(sourceFile)
                 engine.beginScope()
+                if engine.getValue('macroname') != macroName:
+                    engine.setLocal('macroname', macroName)
                 error = engine.createErrorInfo(exc, self.position)
             finally:
                 # Avoid traceback reference cycle due to the __traceback__
-- 
2.43.0


From 40ed459e6c0b594b90bd313901fff6afd15f77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:16 +0000
Subject: [PATCH 47/52] fix: write to a given output stream that is false

A stream class that is a list, for example, is false while it is empty.
Its output went to standard output.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 4159d56..4e6f4d1 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -198,7 +198,7 @@ class TALInterpreter:
         self.Default = engine.getDefault()
         self._pending_source_annotation = False
         self._currentTag = ""
-        self._stream_stack = [stream or sys.stdout]
+        self._stream_stack = [sys.stdout if stream is None else stream]
         self.popStream()
         self.debug = debug
         self.wrap = wrap
-- 
2.43.0


From 13015fd605b09388e3ff0a070cbc48767db74b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:29 +0000
Subject: [PATCH 48/52] fix: use a given expression compiler that is false

A compiler with a length of zero was replaced by the bundled engine.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 108adc4..1562662 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -46,7 +46,7 @@ class TALGenerator:
             :class:`zope.tal.interfaces.ITALExpressionCompiler` to use.
             If not given, we'll use a simple, undocumented, compiler.
         """
-        if not expressionCompiler:
+        if expressionCompiler is None:
             from zope.tal.dummyengine import DummyEngine
             expressionCompiler = DummyEngine()
         self.expressionCompiler = expressionCompiler
-- 
2.43.0


From db229ea3725f7c8e136b0d5ceb91f269ed299704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:40 +0000
Subject: [PATCH 49/52] fix: report compiler errors without arguments

Raising the announced error class without arguments gave an IndexError.
---
 src/zope/tal/talgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 1562662..1b41626 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -214,7 +214,7 @@ class TALGenerator:
         except self.CompilerError as err:
             raise TALError(
                 '{} in expression {}'.format(
-                    err.args[0],
+                    err.args[0] if err.args else err.__class__.__name__,
                     repr(expr)),
                 self.position)
 
-- 
2.43.0


From 86f60341d14d98dd0d31aaac248fa83c4d4f72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:00 +0000
Subject: [PATCH 50/52] fix: do not ask the rendering engine to compile
 expressions

Inserting a structure with strict checking, or with replaced attributes,
used the rendering engine as a compiler, which its interface does not
require it to be.
---
 src/zope/tal/talinterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 4e6f4d1..a3336c7 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -830,7 +830,7 @@ class TALInterpreter:
 
     def insertHTMLStructure(self, text, repldict):
         from zope.tal.htmltalparser import HTMLTALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, xml=0)
         p = HTMLTALParser(gen)  # Raises an exception if text is invalid
         p.parseString(text)
         program, macros = p.getCode()
@@ -838,7 +838,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 1)
+        gen = AltTALGenerator(repldict, xml=1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 799aa5fe7b9f0df934ca7130adb7567d6a9569ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:02 +0000
Subject: [PATCH 51/52] fix: do not compare the value of the macro name
 variable

---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index a3336c7..47cb9f5 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -1067,7 +1067,7 @@ class TALInterpreter:
                     self.sourceFile = sourceFile
                     engine.setSourceFile(sourceFile)
                 engine.beginScope()
-                if engine.getValue('macroname') != macroName:
+                if engine.getValue('macroname') is not macroName:
                     engine.setLocal('macroname', macroName)
                 error = engine.createErrorInfo(exc, self.position)
             finally:
-- 
2.43.0


From 031da078198b0635dac040fd8caa14bc904145c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:37 +0000
Subject: [PATCH 52/52] fix: keep source annotations comments for file names
 with hyphens

Two hyphens in a file name made the annotation an ill-formed comment, and
"-->" ended it early.
---
 src/zope/tal/talinterpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 47cb9f5..04051a7 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -14,6 +14,7 @@
 """Interpreter for a pre-compiled TAL program.
 """
 import html
+import re
 import sys
 
 from zope.i18nmessageid import Message
@@ -333,6 +334,8 @@ class TALInterpreter:
             location = self.sourceFile
         else:
             location = f'{self.sourceFile} (line {lineno})'
+        # Two hyphens in a row may not occur inside a comment.
+        location = re.sub('-(?=-)', '- ', str(location))
         sep = '=' * 78
         return f'<!--\n{sep}\n{location}\n{sep}\n-->'
 
-- 
2.43.0

