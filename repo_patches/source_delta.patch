From a09916c5e33d8795c497c55fcec0f4090596f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 001/106] fix: decode ^^ notation as TeX does (end of input,
 hex form, non-ASCII, re-examination)

---
 plasTeX/Tokenizer.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..939f769 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -254,6 +254,7 @@ class Tokenizer(object):
         CC_SUPER = Token.CC_SUPER
         CC_IGNORED = Token.CC_IGNORED
         CC_INVALID = Token.CC_INVALID
+        HEXDIGITS = '0123456789abcdef'
 
         def _read1():
             if mybuffer:
@@ -271,21 +272,34 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
-
-                # Handle characters like ^^M, ^^@, etc.
+            # Handle characters like ^^M, ^^@, ^^5c, etc.
+            while code == CC_SUPER:
                 next_char = _read1()
-
                 if next_char != token:
                     self.pushChar(next_char)
+                    break
+
+                next_char = _read1()
+                if not next_char or ord(next_char) >= 128:
+                    # These are just two superscript characters
+                    self.pushChar(next_char)
+                    self.pushChar(token)
+                    break
+
+                if next_char in HEXDIGITS:
+                    last_char = _read1()
+                    if last_char and last_char in HEXDIGITS:
+                        token = chr(int(next_char + last_char, 16))
+                        code = whichCode(token)
+                        continue
+                    self.pushChar(last_char)
+
+                num = ord(next_char)
+                if num >= 64:
+                    token = chr(num-64)
                 else:
-                    next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
-                    else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                    token = chr(num+64)
+                code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From e754a59fd0fa936a81e9167bd137bddd16ee6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 002/106] fix: blanks after a control sequence and ignored
 characters in its name follow the category codes

---
 plasTeX/Tokenizer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 939f769..d6c4793 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -233,7 +233,7 @@ class Tokenizer(object):
             if not char or ord(char) == 10:
                 break
 
-    def iterchars(self) -> Generator[Tuple[CatCode, str], None, None]:
+    def iterchars(self, skip: bool = True) -> Generator[Tuple[CatCode, str], None, None]:
         """
         Get the next character in the stream and its category code
 
@@ -245,6 +245,9 @@ class Tokenizer(object):
         and you go too far, you can put the character back with
         the pushChar() method.
 
+        Keyword Arguments:
+        skip -- if False, ignored and invalid characters are returned too
+
         """
         # Create locals before going into the generator loop
         mybuffer = self._charBuffer
@@ -302,7 +305,7 @@ class Tokenizer(object):
                 code = whichCode(token)
 
             # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
+            if skip and code in (CC_IGNORED, CC_INVALID):
                 continue
 
             yield (code, token)
@@ -359,6 +362,8 @@ class Tokenizer(object):
         tokenClasses = self.tokenClasses
         mybuffer = self._tokBuffer
         charIter = self.iterchars()
+        # Ignored characters do matter within the name of a control sequence
+        nameIter = self.iterchars(skip=False)
         context = self.context
         pushChar = self.pushChar
         STATE_N = self.STATE_N
@@ -427,11 +432,11 @@ class Tokenizer(object):
                 # Get name of command sequence
                 self.state = STATE_M
 
-                for (next_code, next_char) in charIter:
+                for (next_code, next_char) in nameIter:
 
                     if next_code == CC_LETTER:
                         word = [next_char]
-                        for (next_code_, next_char_) in charIter:
+                        for (next_code_, next_char_) in nameIter:
                             if next_code_ == CC_LETTER:
                                 word.append(next_char_)
                             else:
@@ -458,7 +463,7 @@ class Tokenizer(object):
 # HACK: I couldn't get the parse() thing to work so I'm just not
 #       going to parse whitespace after EscapeSequences that end in
 #       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
+                        if next_code in (CC_LETTER, CC_SPACE):
                             # Absorb following whitespace
                             self.state = STATE_S
 
-- 
2.43.0


From a2519c47f65b91b79a55e26468cfa1b482901f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 003/106] fix: an end-of-line character discards the rest of
 its line and starts a new line

---
 plasTeX/Tokenizer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index d6c4793..9d83e12 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -407,6 +407,12 @@ class Tokenizer(object):
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                # The rest of the line is thrown away.
+                # ord(token) != 10 is the same as saying token != '\n'
+                # but it is much faster.
+                if ord(char) != 10:
+                    self.lineNumber += 1
+                    self.readline()
                 if state == STATE_S:
                     self.state = STATE_N
                     continue
@@ -415,11 +421,6 @@ class Tokenizer(object):
                     code = CC_SPACE
                     self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -444,11 +445,11 @@ class Tokenizer(object):
                                 break
                         token = EscapeSequence(''.join(word))
 
-                    elif next_code == CC_EOL:
+                    elif next_code == CC_EOL and ord(next_char) == 10:
                         #pushChar(token)
                         #token = EscapeSequence()
                         token = Space(' ')
-                        self.state = STATE_S
+                        self.state = STATE_N
 
                     else:
                         token = EscapeSequence(next_char)
@@ -459,13 +460,12 @@ class Tokenizer(object):
 # another macro class that would eat whitspace incorrectly.  So we
 # have to do this kind of thing in the parse() method of Macro.
 #
-                    if next_code != CC_EOL:
 # HACK: I couldn't get the parse() thing to work so I'm just not
 #       going to parse whitespace after EscapeSequences that end in
 #       non-letter characters as a half-assed solution.
-                        if next_code in (CC_LETTER, CC_SPACE):
-                            # Absorb following whitespace
-                            self.state = STATE_S
+                    if next_code in (CC_LETTER, CC_SPACE):
+                        # Absorb following whitespace
+                        self.state = STATE_S
 
                     break
 
-- 
2.43.0


From bbe978740a3f1e9b6f7fbb511b5614a7a650e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 004/106] fix: match the parameters of a definition like TeX
 (delimiters of several tokens, braces, #{, ## without parameters)

---
 plasTeX/__init__.py | 138 +++++++++++++++++++++++++++-----------------
 1 file changed, 84 insertions(+), 54 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..07f372f 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1168,72 +1168,102 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
-        if not self.args: return self.definition
+        if not self.args:
+            return expandDef(self.definition, [None])
 
-        name = macroName(self)
+        # Split the argument string into the delimiters that come before the
+        # first parameter and after each parameter
+        delimiters = [[]] # type: List[List[Token]]
+        tobrace = False
         argIter = iter(self.args)
-        inparam = False
-        params = [None]
         for a in argIter:
-
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
-
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
-
-                    else:
-                        raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+            if a.catcode != Token.CC_PARAMETER:
+                delimiters[-1].append(a)
+                continue
+            for a in argIter:
+                if a.catcode != Token.CC_PARAMETER:
                     break
+            else:
+                # Handle #{ case here
+                tobrace = True
+                break
+            if a not in string.digits:
+                raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+            delimiters.append([])
 
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
+        # Make sure that the tokens before the first parameter match
+        self.matchTokens(tex, delimiters[0])
 
-            # Not in a parameter, just make sure the token matches
+        params = [None]
+        for i, delimiter in enumerate(delimiters[1:], 2):
+            last = i == len(delimiters)
+            if delimiter or (last and tobrace):
+                params.append(self.readDelimited(tex, delimiter, last and tobrace))
             else:
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
-
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
 
         deflog.debug2('expanding %s %s', self.definition, params)
 
         return expandDef(self.definition, params)
 
+    def matchTokens(self, tex, expected):
+        """ Absorb the given tokens from the stream """
+        for a in expected:
+            for t in tex.itertokens():
+                if t != a:
+                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (macroName(self), t, a, ''.join(self.args)))
+                break
+
+    @staticmethod
+    def readDelimited(tex, delimiter, tobrace=False):
+        """
+        Read a parameter up to the given delimiter tokens
+
+        Delimiters within a group don't count, and the braces of a parameter
+        that consists of just one group are removed.  The delimiter is absorbed.
+
+        Required Arguments:
+        tex -- the TeX stream to read from
+        delimiter -- list of the delimiter tokens
+
+        Keyword Arguments:
+        tobrace -- indicates whether the delimiter is followed by an opening
+            brace, which is left in the stream
+
+        """
+        param = [] # type: List[Token]
+        level = 0
+        start = 0     # Where the delimiter could begin at the earliest
+        single = True # Is the whole parameter just one group?
+        for t in tex.itertokens():
+            if t.catcode == Token.CC_BGROUP:
+                if tobrace and level == 0 and \
+                   param[max(start, len(param) - len(delimiter)):] == delimiter:
+                    tex.pushToken(t)
+                    break
+                if level == 0 and param:
+                    single = False
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+                if level <= 0:
+                    start = len(param) + 1
+            elif level <= 0:
+                if not tobrace and \
+                   param[max(start, len(param) + 1 - len(delimiter)):] + [t] == delimiter:
+                    param.append(t)
+                    break
+            param.append(t)
+        else:
+            return param
+        if delimiter:
+            del param[-len(delimiter):]
+        if single and len(param) > 1 and param[0].catcode == Token.CC_BGROUP \
+           and param[-1].catcode == Token.CC_EGROUP:
+            param = param[1:-1]
+        return param
+
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From 90b238d728b18beeb6043122c7969b604e66c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 005/106] fix: \expandafter with a macro that expands to
 nothing

---
 plasTeX/Base/TeX/Primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..01d8aa9 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -507,7 +507,8 @@ class expandafter(Command):
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
 
-        expanded = expanded or [aftertok]
+        if expanded is None:
+            expanded = [aftertok]
 
         return [nexttok] + expanded
 
-- 
2.43.0


From da0a9ce148efc1de9369ed1c1f98ac428399c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 006/106] fix: \let to a character is looked up when the
 command is expanded

---
 plasTeX/Context.py   | 39 ++++++++++++++++++++++++++++++---------
 plasTeX/TeX.py       |  8 ++++++++
 plasTeX/Tokenizer.py | 12 ------------
 3 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..700acc0 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -804,7 +804,9 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[0][macroName(value)] = value
+        name = macroName(value)
+        self.contexts[0].lets.pop(name, None)
+        self.contexts[0][name] = value
 
     __setitem__ = addGlobal
 
@@ -828,7 +830,9 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[-1][macroName(value)] = value
+        name = macroName(value)
+        self.contexts[-1].lets.pop(name, None)
+        self.contexts[-1][name] = value
 
     def whichCode(self, char):
         """
@@ -1165,12 +1169,22 @@ class Context(object):
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
+        """
+        Return the character token that a command is a \\let alias for
+
+        Required Arguments:
+        command -- the control sequence to look up
+
+        Returns: the character token, or None if the innermost definition
+            of the command isn't such an alias
+
+        """
         for context in reversed(self.contexts):
-            try:
+            if command in context.lets:
                 return context.lets[command]
-            except KeyError:
-                pass
-        return command
+            if dict.__contains__(context, command):
+                return None
+        return None
 
     def let(self, dest, source):
         """
@@ -1187,10 +1201,17 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        name = dest.nodeName
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
-        else:
-            self.top.lets[dest.nodeName] = source
+            alias = self.get_let(source.nodeName)
+            if alias is None:
+                self.top.lets.pop(name, None)
+                self.top[name] = self[source.nodeName]
+                return
+            source = alias
+        if source.macroName != name:
+            self.top.pop(name, None)
+        self.top.lets[name] = source
 
     def chardef(self, name, num):
         """
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..c632281 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -291,6 +291,7 @@ class TeX(object):
         pushToken = self.pushToken
         pushTokens = self.pushTokens
         createElement = self.ownerDocument.createElement
+        getLet = self.ownerDocument.context.get_let
         ELEMENT_NODE = Macro.ELEMENT_NODE
 
         while 1:
@@ -310,6 +311,13 @@ class TeX(object):
 
             # We need to expand this one
             elif token.macroName is not None:
+                # A control sequence that is a \let alias for a character
+                if token.catcode == Token.CC_ESCAPE:
+                    alias = getLet(token)
+                    if alias is not None:
+                        pushToken(type(alias)(alias))
+                        continue
+
                 try:
                     # By default, invoke() should put the macro instance
                     # itself into the output stream.  We'll handle this
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 9d83e12..ba64b06 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -471,17 +471,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 self.readline()
                 self.lineNumber += 1
@@ -490,7 +479,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
-- 
2.43.0


From fa7361be078826b275412c3525706206087c2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 007/106] fix: looking for the end of a number no longer
 executes the commands that follow it

---
 plasTeX/Base/LaTeX/Numbering.py |   5 ++
 plasTeX/Base/TeX/Numbers.py     |   2 +
 plasTeX/Base/TeX/Primitives.py  |   8 ++-
 plasTeX/TeX.py                  | 105 ++++++++++++++++++++++----------
 plasTeX/__init__.py             |   8 +++
 5 files changed, 94 insertions(+), 34 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..a5194b7 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -26,6 +26,7 @@ class addtocounter(Command):
 
 class value(Command):
     args = 'name:str'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(self.ownerDocument.context.counters[a['name']].arabic)
@@ -33,6 +34,7 @@ class value(Command):
 class arabic(Command):
     """ Return arabic representation """
     args = 'name:str'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(self.ownerDocument.context.counters[a['name']].arabic)
@@ -40,6 +42,7 @@ class arabic(Command):
 class Roman(Command):
     """ Return uppercase roman representation """
     args = 'name:str'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(self.ownerDocument.context.counters[a['name']].Roman)
@@ -53,6 +56,7 @@ class roman(Roman):
 class Alph(Command):
     """ Return the uppercase letter representation """
     args = 'name:str'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(self.ownerDocument.context.counters[a['name']].Alph)
@@ -66,6 +70,7 @@ class alph(Alph):
 class fnsymbol(Command):
     """ Return the symbol representation """
     args = 'name:str'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(self.ownerDocument.context.counters[a['name']].fnsymbol)
diff --git a/plasTeX/Base/TeX/Numbers.py b/plasTeX/Base/TeX/Numbers.py
index 505b51d..4df7c6b 100644
--- a/plasTeX/Base/TeX/Numbers.py
+++ b/plasTeX/Base/TeX/Numbers.py
@@ -2,12 +2,14 @@ from plasTeX import Command, numToRoman
 
 class number(Command):
     args = 'num:number'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(str(a['num']))
 
 class romannumeral(Command):
     args = 'num:number'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(numToRoman(a['num']).lower())
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 01d8aa9..afe6493 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -180,7 +180,7 @@ class gdef(DefCommand):
     local = False
 
 class IfCommand(Command):
-    pass
+    expandable = True
 
 class if_(IfCommand):
     """ \\if """
@@ -412,6 +412,7 @@ class catcode(Command):
 
 class csname(Command):
     """ \\csname """
+    expandable = True
     def invoke(self, tex):
         name = []
         for t in tex:
@@ -493,13 +494,15 @@ class noligs_(Command):
     macroName = '@noligs'
 
 class expandafter(Command):
+    expandable = True
     def invoke(self, tex):
         nexttok = next(tex.itertokens())
         aftertok = next(tex.itertokens())
 
         # We expand aftertok once, not recursively
         expanded = None
-        if isinstance(aftertok, EscapeSequence):
+        if isinstance(aftertok, EscapeSequence) and \
+           tex.ownerDocument.context.get_let(aftertok) is None:
             obj = tex.ownerDocument.createElement(aftertok.macroName)
             obj.contextDepth = aftertok.contextDepth
             obj.parentNode = aftertok.parentNode
@@ -551,6 +554,7 @@ class hfil(Command):
 
 class the(Command):
     args = 'arg:cs'
+    expandable = True
     def invoke(self, tex):
         result = Command.invoke(self, tex)
         name = self.attributes['arg']
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c632281..6b3e2f8 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -289,8 +289,6 @@ class TeX(object):
         # Cache variables before starting the generator
         next = self.itertokens().__next__
         pushToken = self.pushToken
-        pushTokens = self.pushTokens
-        createElement = self.ownerDocument.createElement
         getLet = self.ownerDocument.context.get_let
         ELEMENT_NODE = Macro.ELEMENT_NODE
 
@@ -318,35 +316,68 @@ class TeX(object):
                         pushToken(type(alias)(alias))
                         continue
 
-                try:
-                    # By default, invoke() should put the macro instance
-                    # itself into the output stream.  We'll handle this
-                    # automatically here if `None' is received.  If you
-                    # really don't want anything in the output stream,
-                    # just return `[ ]'.
-                    obj = createElement(token.macroName)
-                    obj.contextDepth = token.contextDepth
-                    obj.parentNode = token.parentNode
-                    tokens = obj.invoke(self)
-                    if tokens is None:
-#                       log.info('expanding %s %s', token.macroName, obj)
-                        pushToken(obj)
-                    elif tokens:
-#                       log.info('expanding %s %s', token.macroName, ''.join([x.source for x in tokens]))
-                        pushTokens(tokens)
-                    continue
-                except Exception as message:
-                    msg = str(message)
-                    if msg.strip():
-                        msg = ' (%s)' % msg.strip()
-                    log.error('Error while expanding "%s"%s%s',
-                              token.macroName, self.lineInfo, msg)
-                    raise
+                self.invokeMacro(token)
+                continue
 
 #           tokenlog.debug('%s: %s', type(token), token.ownerDocument)
 
             yield token
 
+    def invokeMacro(self, token):
+        """
+        Invoke the macro of a token and push the result into the stream
+
+        Required Arguments:
+        token -- token that has a macro name
+
+        """
+        try:
+            # By default, invoke() should put the macro instance
+            # itself into the output stream.  We'll handle this
+            # automatically here if `None' is received.  If you
+            # really don't want anything in the output stream,
+            # just return `[ ]'.
+            obj = self.ownerDocument.createElement(token.macroName)
+            obj.contextDepth = token.contextDepth
+            obj.parentNode = token.parentNode
+            tokens = obj.invoke(self)
+            if tokens is None:
+#               log.info('expanding %s %s', token.macroName, obj)
+                self.pushToken(obj)
+            elif tokens:
+#               log.info('expanding %s %s', token.macroName, ''.join([x.source for x in tokens]))
+                self.pushTokens(tokens)
+        except Exception as message:
+            msg = str(message)
+            if msg.strip():
+                msg = ' (%s)' % msg.strip()
+            log.error('Error while expanding "%s"%s%s',
+                      token.macroName, self.lineInfo, msg)
+            raise
+
+    def iterExpandable(self):
+        """
+        Iterate over tokens, expanding only the macros that are expandable
+
+        In contrast to iterating over the stream, commands that do something
+        (i.e. assignments, groups and anything typeset) aren't executed.
+
+        Returns:
+        generator that iterates through the tokens
+
+        """
+        context = self.ownerDocument.context
+        for t in self.itertokens():
+            if t is None:
+                continue
+            if t.nodeType != Macro.ELEMENT_NODE and \
+               t.catcode == Token.CC_ESCAPE and context.get_let(t) is None:
+                macro = context.get(t.macroName)
+                if macro is not None and macro.expandable:
+                    self.invokeMacro(t)
+                    continue
+            yield t
+
     def createSubProcess(self):
         """
         Create a TeX instance using the same document context
@@ -1447,8 +1478,9 @@ class TeX(object):
                 break
             if t in string.digits:
                 num = t + self.readSequence(string.digits, False)
-                for t in self:
-                    if t.nodeType == Token.ELEMENT_NODE:
+                for t in self.iterExpandable():
+                    if t.nodeType == Token.ELEMENT_NODE or \
+                       t.catcode == Token.CC_ESCAPE:
                         self.pushToken(t)
                         return sign * float(num)
                     elif t in '.,':
@@ -1582,11 +1614,11 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.iterExpandable():
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
-            if t not in chars:
+            if t.catcode == Token.CC_ESCAPE or t not in chars:
                 if optspace and t.catcode == Token.CC_SPACE:
                     pass
                 else:
@@ -1620,8 +1652,17 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
-                for t in self:
+                                                              optspace=False)))
+                for t in self.iterExpandable():
+                    if optspace and t.catcode == Token.CC_SPACE:
+                        break
+                    if t.nodeType != Macro.ELEMENT_NODE and \
+                       t.catcode == Token.CC_ESCAPE:
+                        macro = self.ownerDocument.context.get(t.macroName)
+                        if isinstance(macro, type) and \
+                           issubclass(macro, ParameterCommand):
+                            self.invokeMacro(t)
+                            t = next(self.itertokens())
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 07f372f..7dd31f3 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -140,6 +140,10 @@ class Macro(Element):
     # LaTeX argument template
     args = '' # type: str
 
+    # Does the macro only produce other tokens (and doesn't change anything)?
+    # Such macros are expanded while looking for the end of a number.
+    expandable = False
+
     # Force there to be at least on paragraph in the content
     forcePars = False
 
@@ -1063,6 +1067,7 @@ class UnrecognizedMacro(Macro):
 class NewIf(Macro):
     """ Base class for all generated \\newifs """
 
+    expandable = True
     state = False
 
     def invoke(self, tex):
@@ -1128,6 +1133,7 @@ def expandDef(definition, params):
 
 class NewCommand(Macro):
     """ Superclass for all \newcommand/\newenvironment type commands """
+    expandable = True
     nargs = 0
     opt = None
     definition = None
@@ -1164,6 +1170,7 @@ class NewCommand(Macro):
 
 class Definition(Macro):
     """ Superclass for all \\def-type commands """
+    expandable = True
     args = '' # type: str
     definition = None # type: Optional[str]
 
@@ -1664,6 +1671,7 @@ class Counter(object):
 
 class TheCounter(Command):
     """ Base class for \\thecounter commands """
+    expandable = True
     format = None
     trimLeft = False
 
-- 
2.43.0


From 3aee9b69cc863892664e4a579ca16c89d70f138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 008/106] fix: \ifcase without a matching case, \or after
 \else, and commands that merely start with "if" in skipped text

---
 plasTeX/TeX.py | 60 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 6b3e2f8..1620a71 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -18,8 +18,8 @@ from typing import Optional, List
 import contextlib, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
-from plasTeX.Base.TeX.Primitives import MathShift
-from plasTeX import ParameterCommand, Macro
+from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
+from plasTeX import ParameterCommand, Macro, NewIf, UnrecognizedMacro
 from plasTeX import glue, muglue, mudimen, dimen, number
 from plasTeX.Logging import getLogger, disableLogging, fileLogging
 
@@ -578,14 +578,10 @@ class TeX(object):
             an integer, the `case' matching this integer will be returned.
 
         """
-        # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
-        if isinstance(which, bool):
-            if which: which = 0
-            else: which = 1
-
+        # The true content always comes first
         cases = [[]]
+        otherwise = [] # the content of the \else branch
+        current = cases[0]
         nesting = 0
         correctly_terminated = False
         iterator = self.itertokens()
@@ -593,35 +589,53 @@ class TeX(object):
         for t in iterator:
             name = getattr(t, 'macroName', '') or ''
             if name == 'newif':
-                cases[-1].append(t)
-                cases[-1].append(next(iterator))
+                current.append(t)
+                current.append(next(iterator))
                 continue
-            elif name.startswith('if'):
-                cases[-1].append(t)
-                nesting += 1
             elif name == 'fi':
                 if not nesting:
                     correctly_terminated = True
                     break
-                cases[-1].append(t)
                 nesting -= 1
             elif not(nesting) and name == 'else':
-                cases.append([])
+                current = otherwise
                 continue
             elif not(nesting) and name == 'or':
-                cases.append([])
+                current = []
+                cases.append(current)
                 continue
-            else:
-                cases[-1].append(t)
+            elif name and self.isConditional(name):
+                nesting += 1
+            current.append(t)
 
         if not correctly_terminated:
             log.warning(r'\end occurred when \if was incomplete')
 
-        # else case for ifs without elses
-        cases.append([])
-
         # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        if isinstance(which, bool):
+            which = 0 if which else -1
+        if 0 <= which < len(cases):
+            self.pushTokens(cases[which])
+        else:
+            self.pushTokens(otherwise)
+
+    def isConditional(self, name):
+        """
+        Is the macro with the given name a conditional?
+
+        Required Arguments:
+        name -- macro name
+
+        """
+        macro = self.ownerDocument.context.get(name)
+        if macro is None:
+            # It could be created by a \newif that hasn't been executed yet
+            return name.startswith('if')
+        if not isinstance(macro, type):
+            return False
+        if issubclass(macro, UnrecognizedMacro):
+            return name.startswith('if')
+        return issubclass(macro, (IfCommand, NewIf))
 
     def readArgument(self, *args, **kwargs):
         """
-- 
2.43.0


From 7aa0730c0fe4b2e6a9e2ac84ac0540b76be481d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 009/106] fix: \newcommand and \newenvironment are local to the
 group, \gdef overrides local definitions

---
 plasTeX/Base/LaTeX/Definitions.py |  4 ++--
 plasTeX/Context.py                | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..a9dcbd8 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -46,7 +46,7 @@ class newenvironment(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 700acc0..a459c59 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1044,7 +1044,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1054,6 +1054,7 @@ class Context(object):
         definition -- string containing the LaTeX definition
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1081,9 +1082,12 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None, local=False):
         """
         Create a \\newenvironment
 
@@ -1096,6 +1100,7 @@ class Context(object):
             environment
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this environment is local or global
 
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
@@ -1122,15 +1127,17 @@ class Context(object):
 
         macrolog.debug('creating newenvironment %s', name)
 
+        add = self.addLocal if local else self.addGlobal
+
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        add(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        add('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
@@ -1166,6 +1173,10 @@ class Context(object):
         if local:
             self.addLocal(name, newclass)
         else:
+            # A global definition replaces the local ones
+            for context in self.contexts:
+                context.pop(name, None)
+                context.lets.pop(name, None)
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
-- 
2.43.0


From 8d572e0ac03c4cef4618242f790a8a968d53a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 010/106] fix: strip the braces around optional arguments of
 \newcommand macros

---
 plasTeX/__init__.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 7dd31f3..5bae0c4 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1098,6 +1098,22 @@ class IfFalse(Macro):
         type(self).ifclass.setFalse()
         return []
 
+def stripGroup(tokens):
+    """ Remove the braces of a delimited argument that is just one group """
+    if len(tokens) < 2 or tokens[0].catcode != Token.CC_BGROUP:
+        return tokens
+    level = 0
+    for i, t in enumerate(tokens):
+        if t.catcode == Token.CC_BGROUP:
+            level += 1
+        elif t.catcode == Token.CC_EGROUP:
+            level -= 1
+            if level == 0:
+                break
+    if level == 0 and i == len(tokens) - 1:
+        return tokens[1:-1]
+    return tokens
+
 def expandDef(definition, params):
     # Walk through the definition and expand parameters
     if not definition:
@@ -1151,9 +1167,9 @@ class NewCommand(Macro):
         nargs = self.nargs
         if self.opt is not None:
             nargs -= 1
-            params.append(tex.readArgument('[]', default=self.opt,
-                                           parentNode=self,
-                                           name='#%s' % len(params)))
+            params.append(stripGroup(tex.readArgument('[]', default=self.opt,
+                                                      parentNode=self,
+                                                      name='#%s' % len(params))))
 
         # Get mandatory arguments
         for i in range(nargs):
@@ -1241,16 +1257,13 @@ class Definition(Macro):
         """
         param = [] # type: List[Token]
         level = 0
-        start = 0     # Where the delimiter could begin at the earliest
-        single = True # Is the whole parameter just one group?
+        start = 0 # Where the delimiter could begin at the earliest
         for t in tex.itertokens():
             if t.catcode == Token.CC_BGROUP:
                 if tobrace and level == 0 and \
                    param[max(start, len(param) - len(delimiter)):] == delimiter:
                     tex.pushToken(t)
                     break
-                if level == 0 and param:
-                    single = False
                 level += 1
             elif t.catcode == Token.CC_EGROUP:
                 level -= 1
@@ -1266,10 +1279,7 @@ class Definition(Macro):
             return param
         if delimiter:
             del param[-len(delimiter):]
-        if single and len(param) > 1 and param[0].catcode == Token.CC_BGROUP \
-           and param[-1].catcode == Token.CC_EGROUP:
-            param = param[1:-1]
-        return param
+        return stripGroup(param)
 
 
 class number(int):
-- 
2.43.0


From 99ba22ebbae6b1174221983cecf7297186e6b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 011/106] fix: \ifx compares meanings instead of expansions;
 \ifdefined knows \let aliases of characters

---
 plasTeX/Base/TeX/Primitives.py | 34 +++++++++++++++++++++++++++++-----
 plasTeX/__init__.py            | 13 +------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index afe6493..b5e3fe8 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from plasTeX.Tokenizer import Token, EscapeSequence, Other
 from plasTeX import Macro, Command, CountCommand
+from plasTeX import NewCommand, Definition, UnrecognizedMacro
 from plasTeX import sourceChildren
 from plasTeX.Logging import getLogger
 
@@ -279,13 +280,35 @@ class ifcat(IfCommand):
 
 class ifx(IfCommand):
     """ Test if tokens agree """
-    args = 'a:XTok b:XTok'
     def invoke(self, tex):
-        self.parse(tex)
-        a = self.attributes
-        tex.processIfContent(a['a'] == a['b'])
+        tokens = tex.itertokens()
+        a, b = self.meaning(next(tokens)), self.meaning(next(tokens))
+        tex.processIfContent(a == b)
         return []
 
+    def meaning(self, token):
+        """ Return a value that is equal for tokens with the same meaning """
+        if token.nodeType == Command.ELEMENT_NODE:
+            macro = type(token)
+        elif token.catcode == Token.CC_ESCAPE:
+            context = self.ownerDocument.context
+            alias = context.get_let(token)
+            if alias is not None:
+                return (alias.catcode, str(alias))
+            macro = context.get(token.macroName)
+        else:
+            return (token.catcode, str(token))
+        if not isinstance(macro, type):
+            return macro
+        if issubclass(macro, UnrecognizedMacro) or \
+           macro.__name__ in ['undefined', '@undefined']:
+            return None
+        if issubclass(macro, Definition):
+            return (Definition, list(macro.args or []), macro.definition or [])
+        if issubclass(macro, NewCommand):
+            return (NewCommand, macro.nargs, macro.opt, macro.definition or [])
+        return macro
+
 class ifvoid(IfCommand):
     """ Test a box register """
     def invoke(self, tex):
@@ -350,7 +373,8 @@ class ifdefined(IfCommand):
     def invoke(self, tex):
         a = self.parse(tex)
         n = str(a['name'].macroName)
-        b = n in self.ownerDocument.context
+        context = self.ownerDocument.context
+        b = n in context or context.get_let(n) is not None
         tex.processIfContent(b)
         return []
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 5bae0c4..3ea66f9 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1120,7 +1120,6 @@ def expandDef(definition, params):
         return []
     output = []
     definition = iter(definition)
-    previous = ''
     for t in definition:
         # Expand parameters
         if t.catcode == Token.CC_PARAMETER:
@@ -1130,21 +1129,11 @@ def expandDef(definition, params):
                     output.append(t)
                 else:
                     if int(t) < len(params) and params[int(t)] is not None:
-                        # This is a pretty bad hack, but `ifx' commands
-                        # need an argument to also be a token.  So we
-                        # wrap them in a group here and let the
-                        # TeX parser convert the group to a token.
-                        if previous == 'ifx':
-                            output.append(BeginGroup(' '))
-                            output.extend(params[int(t)])
-                            output.append(EndGroup(' '))
-                        else:
-                            output.extend(params[int(t)])
+                        output.extend(params[int(t)])
                 break
         # Just append other tokens to the output
         else:
             output.append(t)
-        previous = t
     return output
 
 class NewCommand(Macro):
-- 
2.43.0


From 205373bca117b40cda576fff56d1a3f94ba58f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 012/106] fix: \bibliography with natbib no longer disables
 \setcounter in the rest of the document

---
 plasTeX/Packages/natbib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..bc78d57 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -73,7 +73,7 @@ class bibliography(Base.bibliography):
         # We have to get our info from the aux file.
         doc.userdata.setPath('bibliography/bibcites', {})
         self.ownerDocument.context.push(self)
-        self.ownerDocument.context['setcounter'] = self.setcounter
+        self.ownerDocument.context.addLocal('setcounter', self.setcounter)
         tex.loadAuxiliaryFile()
         self.ownerDocument.context.pop(self)
         Base.bibliography.loadBibliographyFile(self, tex)
-- 
2.43.0


From 91fc06f90194ffa40323644f066c0e6360165f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 013/106] fix: delimiters inside braces don't end an optional
 argument

---
 plasTeX/TeX.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 1620a71..01a0bd5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -935,12 +935,23 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
+                    # Delimiters inside of { ... } don't count
+                    if braces:
+                        if t.catcode == Token.CC_BGROUP:
+                            braces += 1
+                        elif t.catcode == Token.CC_EGROUP:
+                            braces -= 1
+                        toks.append(t)
+                    elif t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
+                    elif t.catcode == Token.CC_BGROUP:
+                        toks.append(t)
+                        braces += 1
                     elif t.catcode != Token.CC_ESCAPE and \
                          (t == end or str(t) == str(end)):
                         level -= 1
-- 
2.43.0


From 9aae647f0b05bc3fcb3e3b08a24ea77977a4c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 014/106] fix: fil units with a factor, glue registers keep
 their stretch and shrink

---
 plasTeX/TeX.py      | 14 ++++++++++----
 plasTeX/__init__.py | 21 ++++++++++++++++++++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 01a0bd5..caa77e6 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -15,7 +15,7 @@ Example:
 """
 from io import IOBase
 from typing import Optional, List
-import contextlib, string, os, sys, plasTeX, subprocess
+import contextlib, math, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
 from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
@@ -1544,7 +1544,13 @@ class TeX(object):
                 return dimen(sign * dimen(t))
             self.pushToken(t)
             break
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+        num = sign * self.readDecimal()
+        unit = self.readUnitOfMeasure(units=units)
+        # fil(ll)s are encoded by adding a constant, which isn't scaled
+        if unit > dimen('0fil'):
+            num = dimen(num + math.copysign(unit - 1, num))
+        else:
+            num = dimen(num * unit)
         ParameterCommand.enable()
         return num
 
@@ -1725,7 +1731,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return glue(sign * glue(t))
+                return glue(t) if sign > 0 else -glue(t)
             self.pushToken(t)
             break
         dim = self.readDimen()
@@ -1755,7 +1761,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return muglue(sign * muglue(t))
+                return muglue(t) if sign > 0 else -muglue(t)
             self.pushToken(t)
             break
         dim = self.readMuDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3ea66f9..17d3401 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1434,16 +1434,31 @@ class mudimen(dimen):
 class glue(dimen):
     """ Class used for glue values """
     def __new__(cls, g, plus=None, minus=None):
+        if isinstance(g, Macro):
+            g = cls.fromMacro(g)
         return dimen.__new__(cls, g)
 
     def __init__(self, g, plus=None, minus=None):
         # super(glue, self).__init__(g)
-        self.stretch = self.shrink = None
+        if isinstance(g, Macro):
+            g = self.fromMacro(g)
+        self.stretch = getattr(g, 'stretch', None)
+        self.shrink = getattr(g, 'shrink', None)
         if plus is not None:
             self.stretch = dimen(plus)
         if minus is not None:
             self.shrink = dimen(minus)
 
+    @staticmethod
+    def fromMacro(macro):
+        return macro.__glue__()
+
+    def __neg__(self):
+        stretch, shrink = self.stretch, self.shrink
+        return type(self)(-dimen(self),
+                          plus=-stretch if stretch is not None else None,
+                          minus=-shrink if shrink is not None else None)
+
     @property
     def source(self):
         s = [dimen(self).source]
@@ -1459,6 +1474,10 @@ class muglue(glue):
     """ Class used for muglue values """
     units = ['mu']
 
+    @staticmethod
+    def fromMacro(macro):
+        return macro.__muglue__()
+
 
 class ParameterCommand(Command):
     args = '= value:Number'
-- 
2.43.0


From 6137fcd7fce8e9880577676afd24082988465cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 015/106] fix: scanning of hexadecimal constants, character
 codes, keywords produced by macros; strings that contain groups

---
 plasTeX/TeX.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index caa77e6..153aba2 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1083,7 +1083,10 @@ class TeX(object):
         self.cast()
 
         """
-        return type(self.normalize(tokens))
+        value = self.normalize(tokens)
+        if not isinstance(value, str):
+            value = getattr(value, 'textContent', value)
+        return type(value)
 
     def castLabel(self, tokens, **kwargs):
         """
@@ -1479,10 +1482,11 @@ class TeX(object):
         for word in words:
             matched = []
             letters = list(word.upper())
-            for t in self.itertokens():
-                if t.nodeType == Token.ELEMENT_NODE:
-                    break
+            for t in self.iterExpandable():
                 matched.append(t)
+                if t.nodeType == Token.ELEMENT_NODE or \
+                   t.catcode == Token.CC_ESCAPE:
+                    break
                 if t.upper() == letters[0]:
                     letters.pop(0)
                     if not letters:
@@ -1706,12 +1710,19 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
                 for t in self.itertokens():
-                    num = number(sign * ord(t))
+                    # Active characters are called something like "active::~"
+                    num = number(sign * ord(t[-1]))
+                    break
+                # The blank that ends a character code is optional
+                for t in self.iterExpandable():
+                    if not optspace or t.nodeType == Macro.ELEMENT_NODE or \
+                       t.catcode != Token.CC_SPACE:
+                        self.pushToken(t)
                     break
             break
         ParameterCommand.enable()
-- 
2.43.0


From 22663c36d8e4a2173dc5ccf6e9380290ed55b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 016/106] fix: character codes in numeric arguments; switches
 of any/Tok/XTok arguments stay balanced

---
 plasTeX/TeX.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 153aba2..81245fd 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -733,25 +733,27 @@ class TeX(object):
             for tok in self.itertokens():
                 ParameterCommand.enable()
                 return tok, tok.source
+            ParameterCommand.enable()
+            return default, ''
 
         if type in ['XTok','XToken']:
-            self.ownerDocument.context.warnOnUnrecognized = False
+            context = self.ownerDocument.context
+            warn = context.warnOnUnrecognized
+            context.warnOnUnrecognized = False
+            toks, source = default, ''
             for t in self.itertokens():
                 if t.catcode == Token.CC_BGROUP:
                     self.pushToken(t)
                     toks, source = self.readToken(True)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, source
                 else:
                     toks = self.expandTokens([t], parentNode=parentNode)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, self.source(toks)
+                    source = self.source(toks)
+                if len(toks) == 1:
+                    toks, source = toks[0], toks[0].source
+                break
+            context.warnOnUnrecognized = warn
+            ParameterCommand.enable()
+            return toks, source
 
         # Definition argument string
         if type in ['Args']:
@@ -774,9 +776,13 @@ class TeX(object):
                 if t.catcode == Token.CC_SPACE:
                     break
                 toks.append(t)
-            return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
+            source = self.source(toks)
+            toks = self.expandTokens(toks, parentNode=parentNode)
+            ParameterCommand.enable()
+            return toks, source
 
-        if type in ['cs']:
+        # Numbers are expanded while they are read
+        if type in ['cs'] or self.isNumeric(type):
             expanded = False
 
         priorcodes = {}
@@ -1047,6 +1053,11 @@ class TeX(object):
 
         return tokens
 
+    def isNumeric(self, dtype):
+        """ Is this an argument type that is cast by a numeric scanner? """
+        return self.argtypes.get(dtype) in [self.castNumber, self.castDecimal,
+                                            self.castDimen]
+
     def castNone(self, tokens, **kwargs):
         return tokens
 
-- 
2.43.0


From 61febed83f8aa787603e3a436b54968f7746e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 017/106] fix: keys without a value in dictionaries with typed
 values are True

---
 plasTeX/TeX.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 81245fd..46e75a5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1381,18 +1381,20 @@ class TeX(object):
             # Found end-of-value delimiter
             if current == delim or not tokens:
                 currentkey = self.normalize(currentkey)
-                currentvalue = self.normalize(self.cast(currentvalue, subtype))
                 if currentvalue is None:
                     currentvalue = True
+                else:
+                    currentvalue = self.normalize(self.cast(currentvalue, subtype))
                 dictarg[currentkey] = currentvalue
                 currentkey = []
                 currentvalue = None
 
         if currentkey:
             currentkey = self.normalize(currentkey)
-            currentvalue = self.normalize(self.cast(currentvalue, subtype))
             if currentvalue is None:
                 currentvalue = True
+            else:
+                currentvalue = self.normalize(self.cast(currentvalue, subtype))
             dictarg[currentkey] = currentvalue
 
         return dictarg
-- 
2.43.0


From d14ab7b9286c3f97558c427945fa5abea7e6812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 018/106] fix: element lookup descends into listed attribute
 values and finds children once

---
 plasTeX/DOM/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..ff9b9ca 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1270,7 +1270,11 @@ def _getElementsByTagName(self, tagname):
 
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
+        children = self.childNodes if self.hasChildNodes() else None
         for item in list(self.attributes.values()):
+            # The child elements are handled below
+            if item is not None and item is children:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1279,14 +1283,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
-- 
2.43.0


From a2192e938056f147d1ac19ecc0a6d8a81b6bfb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 019/106] fix: deep clones copy attribute values, shallow
 clones leave the children alone

---
 plasTeX/DOM/__init__.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index ff9b9ca..a6679e2 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1045,20 +1045,36 @@ class Node(object):
 #       node.nodeType = self.nodeType
         node.parentNode = self.parentNode
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
+        if node.attributes is not None and self.attributes is not None:
+            if deep:
+                for key, value in self.attributes.items():
+                    node.attributes[key] = self._cloneValue(value)
+            else:
+                # The values still belong to us
+                dict.update(node.attributes, self.attributes)
+        if self.hasChildNodes():
+            # The `self' attribute may act as the child list
+            if node.attributes and \
+               self.childNodes is self.attributes.get('self'):
+                return node
+            node._dom_childNodes = []
+            for x in self.childNodes:
+                if deep:
                     node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+                else:
+                    node.append(x, setParent=False)
         return node
 
+    def _cloneValue(self, value):
+        """ Make a deep copy of an attribute value """
+        if isinstance(value, Node):
+            return value.cloneNode(True)
+        if isinstance(value, list):
+            return type(value)([self._cloneValue(x) for x in value])
+        if isinstance(value, dict):
+            return type(value)([(k, self._cloneValue(v)) for k, v in value.items()])
+        return value
+
     def normalize(self, charsubs=None):
         """
         Combine consecutive text nodes and remove comments
-- 
2.43.0


From 5ba2a329811eb68a8de263c82df1d75ea896f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 020/106] fix: item assignment and fragment insertion at
 negative positions

---
 plasTeX/DOM/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index a6679e2..232e7ae 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -945,6 +945,9 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            # Negative positions would change while we are inserting
+            if i < 0:
+                i = max(len(self) + i, 0)
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
                 i += 1
@@ -969,6 +972,11 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not isinstance(i, slice):
+            if i < 0:
+                i += len(self)
+            if not 0 <= i < len(self):
+                raise IndexError('index out of range')
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From 17daf2b530fcb53ce352111bcbfafffbb62a3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:14 +0000
Subject: [PATCH 021/106] fix: document positions are decided below the deepest
 common ancestor

---
 plasTeX/DOM/__init__.py | 57 ++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 232e7ae..82afaa0 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -440,6 +440,23 @@ class NamedNodeMap(dict):
 
 
 
+def _ancestors(self):
+    """
+    Return the path from the root of the tree to the current node
+
+    Fragments that merely are the child list of another node are left out.
+
+    """
+    path = [self]
+    parent = self.parentNode
+    while parent is not None:
+        if not parent.hasChildNodes() or parent.childNodes is not path[0]:
+            path.insert(0, parent)
+        else:
+            path[0] = parent
+        parent = parent.parentNode
+    return path
+
 def _compareDocumentPosition(self, other):
     """
     Compare the position of the current node to `other`
@@ -468,35 +485,29 @@ def _compareDocumentPosition(self, other):
     if self is other:
         return Node.DOCUMENT_POSITION_IMPLEMENTATION_SPECIFIC
 
-    sparents = []
-    parent = self
-    while parent is not None:
+    sparents = _ancestors(self)
+    for parent in sparents:
         if parent is other:
             return Node.DOCUMENT_POSITION_CONTAINS
-        sparents.append(parent)
-        parent = parent.parentNode
 
-    oparents = []
-    parent = other
-    while parent is not None:
+    oparents = _ancestors(other)
+    for parent in oparents:
         if parent is self:
             return Node.DOCUMENT_POSITION_CONTAINED_BY
-        oparents.append(parent)
-        parent = parent.parentNode
 
-    sparents.reverse()
-    oparents.reverse()
-
-    for i, sparent in enumerate(sparents):
-        for j, oparent in enumerate(oparents):
-            if sparent is oparent:
-                s = sparents[i+1]
-                o = oparents[j+1]
-                for item in sparent:
-                   if item is s:
-                       return Node.DOCUMENT_POSITION_FOLLOWING
-                   if item is o:
-                       return Node.DOCUMENT_POSITION_PRECEDING
+    # Find the deepest common ancestor
+    common = None
+    for s, o in zip(sparents, oparents):
+        if s is not o:
+            break
+        common = s
+
+    if common is not None:
+        for item in common:
+            if item is s:
+                return Node.DOCUMENT_POSITION_FOLLOWING
+            if item is o:
+                return Node.DOCUMENT_POSITION_PRECEDING
 
     return Node.DOCUMENT_POSITION_DISCONNECTED
 
-- 
2.43.0


From f23309f77950a5bca1ec32a50c9790be2105014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 022/106] fix: parent links of the children of fragments and of
 removed nodes

---
 plasTeX/DOM/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 82afaa0..113b69a 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
@@ -908,8 +910,11 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: node = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        if node.parentNode is self:
+            node.parentNode = None
+        return node
 
     def append(self, newChild, setParent=True):
         """
@@ -932,10 +937,7 @@ class Node(object):
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -965,10 +967,7 @@ class Node(object):
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
-- 
2.43.0


From 0d4100f901e00dd5e71b352ee7d3b5ba4adcf7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 023/106] fix: \ss and \SS were exchanged

---
 plasTeX/Base/LaTeX/Characters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Characters.py b/plasTeX/Base/LaTeX/Characters.py
index fa0aaef..0af9238 100644
--- a/plasTeX/Base/LaTeX/Characters.py
+++ b/plasTeX/Base/LaTeX/Characters.py
@@ -343,7 +343,7 @@ class O(Command):
     str = chr(216)
 
 class SS(Command):
-    str = chr(223)
+    str = 'SS'
 
 class TH(Command):
     str = chr(222)
@@ -392,7 +392,7 @@ class quotesinglbase(Command):
     str = chr(8218)
 
 class ss(Command):
-    str = 'SS'
+    str = chr(223)
 
 class th(Command):
     str = chr(254)
-- 
2.43.0


From 45ea888eaf54c7d0cd1aeed376d06c378d4b91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 024/106] fix: text of documents without paragraphs is
 normalized

---
 plasTeX/Base/LaTeX/Document.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Document.py b/plasTeX/Base/LaTeX/Document.py
index 9b801ec..f2f6d01 100644
--- a/plasTeX/Base/LaTeX/Document.py
+++ b/plasTeX/Base/LaTeX/Document.py
@@ -25,6 +25,16 @@ class document(Environment, SectionUtils):
             self.ownerDocument.context.counters[name].setcounter(value-1)
 
         return res
+
+    def digest(self, tokens):
+        Environment.digest(self, tokens)
+        # Text that isn't grouped into paragraphs hasn't been normalized yet
+        if self.macroMode != Environment.MODE_END:
+            for item in self:
+                if item.level == Environment.PAR_LEVEL:
+                    break
+            else:
+                self.normalize(self.ownerDocument.charsubs)
  
     @property
     def index(self):
-- 
2.43.0


From 5a62efc690031468d962121dc386a11a267ebdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 025/106] fix: declarations end at the items of the enclosing
 list

---
 plasTeX/Base/LaTeX/Lists.py |  2 ++
 plasTeX/__init__.py         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..65dae65 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -16,12 +16,14 @@ class List(Environment):
     depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
+    holdsItems = True
 
     class item(Command):
         args = '[ term ]'
         counter = 'enumi'
         position = 0
         forcePars = True
+        endsDeclarations = True
 
         def invoke(self, tex):
             """ Set up counter for this list depth """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 17d3401..4606599 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -124,6 +124,9 @@ class Macro(Element):
     nodeType = Node.ELEMENT_NODE
     nodeValue = None
 
+    # Does this macro end the declarations before it (e.g. \item)?
+    endsDeclarations = False
+
     # Counter associated with this macro
     counter = None # type: Optional[str]
 
@@ -892,6 +895,9 @@ class Environment(Macro):
     """ Base class for all Python-based LaTeX environments """
     level = Node.ENVIRONMENT_LEVEL
 
+    # Is this a list (i.e. not ended by an \item when used as a declaration)?
+    holdsItems = False
+
     def invoke(self, tex):
         if self.macroMode == Macro.MODE_END:
             self.ownerDocument.context.pop(self)
@@ -929,6 +935,11 @@ class Environment(Macro):
             if item.nodeType == Node.ELEMENT_NODE:
                 if item.macroMode == Macro.MODE_END and type(item) is type(self):
                     break
+                # A declaration doesn't absorb the items of the list it is in
+                if item.endsDeclarations and not self.holdsItems and \
+                   self.macroMode == Macro.MODE_NONE:
+                    tokens.push(item)
+                    break
                 item.parentNode = self
                 item.digest(tokens)
             # Stay within our context depth
-- 
2.43.0


From 35eee4682e4455530e61a3c6ab352552799df116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 026/106] fix: no character substitutions in mathematics

---
 plasTeX/Base/LaTeX/Math.py | 10 ++++++++++
 plasTeX/TeX.py             |  5 ++++-
 plasTeX/__init__.py        | 18 ++++++++++++++++--
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..f34132a 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -127,6 +127,11 @@ class ensuremath(Command):
     """
     args = 'self'
     mathMode = True
+
+    def normalize(self, charsubs=None):
+        """ Normalize, but don't allow character substitutions """
+        return Command.normalize(self)
+
     @property
     def source(self):
         return sourceChildren(self)
@@ -159,6 +164,11 @@ class EqnarrayStar(Array, MathEnvironmentPre, NoCharSubEnvironment):
             return res
 
     class ArrayCell(Array.ArrayCell):
+
+        @property
+        def charsubs(self):
+            return self.ownerDocument.charsubs
+
         @property
         def source(self):
             return '$\\displaystyle %s $' % sourceChildren(self, par=False)
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 46e75a5..5d120e8 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -702,7 +702,10 @@ class TeX(object):
         ParameterCommand.disable()
 
         if charsubs is None:
-            charsubs = getattr(self.ownerDocument, 'charsubs', [])
+            if isinstance(parentNode, Macro):
+                charsubs = parentNode.charsubs
+            else:
+                charsubs = getattr(self.ownerDocument, 'charsubs', [])
 
         if type in ['Dimen','Length','Dimension']:
             n = self.readDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 4606599..a721c25 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -730,6 +730,20 @@ class Macro(Element):
             node = node.parentNode
         return
 
+    @property
+    def charsubs(self):
+        """ Character substitutions for the text in this node """
+        mathMode = None
+        node = self
+        while node is not None and mathMode is None:
+            mathMode = getattr(node, 'mathMode', None)
+            node = node.parentNode
+        if mathMode is None:
+            mathMode = self.ownerDocument.context.isMathMode
+        if mathMode:
+            return []
+        return self.ownerDocument.charsubs
+
     def paragraphs(self, force=True):
         """
         Group content into paragraphs
@@ -753,7 +767,7 @@ class Macro(Element):
 
         # No paragraphs, and we aren't forcing paragraphs...
         if parname is None and not force:
-            self.normalize(self.ownerDocument.charsubs)
+            self.normalize(self.charsubs)
             return
 
         if parname is None:
@@ -785,7 +799,7 @@ class Macro(Element):
         # Insert nodes into self
         for i, item in enumerate(newnodes):
             if item.level == Node.PAR_LEVEL:
-                item.normalize(self.ownerDocument.charsubs)
+                item.normalize(self.charsubs)
             self.insert(i, item)
 
         # Filter out any empty paragraphs
-- 
2.43.0


From 1e25cab8a4f664c0661a8da2ac26e505e18770d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 027/106] fix: reset counters defined with
 \newcounter{x}[within]

---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index a5194b7..49dc25d 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From 8f7e58691ce46ae94ab83cc261698eb60bf83e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 028/106] fix: \setcounter and \addtocounter do not reset other
 counters

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..8daf727 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a721c25..e179701 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1665,11 +1665,9 @@ class Counter(object):
 
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From d03c6dc1c60647d2e40f43e0e4d87d1ef67b9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 029/106] fix: no chapter part in equation numbers before the
 first chapter

---
 plasTeX/Packages/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 8daf727..7d5a0c4 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
-- 
2.43.0


From e6a041263b6fd7fb51ab7e00df902d35bd3c9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 030/106] fix: number enumerate items by nesting of enumerate,
 not counting own labels

---
 plasTeX/Base/LaTeX/Lists.py | 57 +++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 65dae65..98e1dad 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -4,6 +4,8 @@ C.6.3 The list and trivlist Enviroments
 
 """
 
+from typing import Optional
+
 from plasTeX import Environment, Command, DimenCommand
 
 class enuminame(Command): str = ''
@@ -13,27 +15,43 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
     holdsItems = True
+    # Counter of the items (if they are counted)
+    itemCounter = None # type: Optional[str]
+    # Number of items so far
+    length = 0
 
     class item(Command):
         args = '[ term ]'
-        counter = 'enumi'
         position = 0
         forcePars = True
         endsDeclarations = True
 
         def invoke(self, tex):
-            """ Set up counter for this list depth """
-            try:
-                self.counter = List.counters[List.depth-1]
-                self.position = self.ownerDocument.context.counters[self.counter].value + 1
-            except (KeyError, IndexError):
-                pass
+            """ Set up counter for this list """
+            for c in reversed(self.ownerDocument.context.contexts):
+                if isinstance(c.obj, List):
+                    c.obj.length += 1
+                    self.position = c.obj.length
+                    self.counter = c.obj.itemCounter
+                    break
             return Command.invoke(self, tex)
 
+        def preArgument(self, arg, tex):
+            # Items with a label of their own aren't counted
+            pass
+
+        def postArgument(self, arg, value, tex):
+            if arg.name != 'term':
+                return
+            if value is not None:
+                self.counter = None
+            if self.counter:
+                self.refstepcounter(tex)
+                self.position = self.ownerDocument.context.counters[self.counter].value
+
         def digest(self, tokens):
             """
             Items should absorb all of the content within that 
@@ -50,19 +68,6 @@ class List(Environment):
             if self.forcePars:
                 self.paragraphs()
 
-    def invoke(self, tex):
-        """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            List.depth += 1
-        else:
-            List.depth -= 1
-        try:
-            for i in range(List.depth, len(List.counters)):
-                self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-        except (IndexError, KeyError):
-            pass
-        return Environment.invoke(self, tex)
-
     def digest(self, tokens):
         if self.macroMode != Environment.MODE_END:
             # Drop any whitespace before the first item
@@ -101,6 +106,16 @@ class enumerate_(List):
     macroName = 'enumerate'
     args = '[ type ]'  # Actually defined in the enumerate package, but it doesn't hurt
 
+    def invoke(self, tex):
+        """ Start counting at the counter for this nesting depth """
+        if self.macroMode != Environment.MODE_END:
+            context = self.ownerDocument.context
+            depth = len([c for c in context.contexts if isinstance(c.obj, enumerate_)])
+            if depth < len(List.counters) and List.counters[depth] in context.counters:
+                self.itemCounter = List.counters[depth]
+                context.counters[self.itemCounter].setcounter(0)
+        return List.invoke(self, tex)
+
 class description(List): 
     pass
 
-- 
2.43.0


From 767d40569810dcfbd88f4beac86e381296b75e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 031/106] fix: \nonumber only takes back the number of its own
 row

---
 plasTeX/Base/LaTeX/Math.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index f34132a..bc7daf3 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -184,6 +184,10 @@ class eqnarray(EqnarrayStar):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
             self.ownerDocument.context.currentlabel = res[1]
+            for c in reversed(self.ownerDocument.context.contexts):
+                if isinstance(c.obj, eqnarray):
+                    c.obj.currentRow = res[1]
+                    break
             return res
 
     def invoke(self, tex):
@@ -191,20 +195,22 @@ class eqnarray(EqnarrayStar):
         if self.macroMode == self.MODE_END:
             return res
         res[1].ref = self.ref
+        self.currentRow = res[1]
         return res
+
 class nonumber(Command):
 
     def invoke(self, tex):
-        self.ownerDocument.context.counters['equation'].addtocounter(-1)
-
-    def digest(self, tokens):
-        try:
-            row = self.parentNode
-            while not isinstance(row, Array.ArrayRow):
-                row = row.parentNode
-            row.ref = None
-        except AttributeError as e:
-            print('problem encountered %s' % e)
+        # Take back the number of the current row (or equation)
+        context = self.ownerDocument.context
+        for c in reversed(context.contexts):
+            if not isinstance(c.obj, (equation, eqnarray)) or not c.obj.counter:
+                continue
+            numbered = getattr(c.obj, 'currentRow', c.obj)
+            if numbered.ref is not None:
+                numbered.ref = None
+                context.counters[c.obj.counter].addtocounter(-1)
+            break
 
 class notag(nonumber):
     pass
-- 
2.43.0


From 123cbe5f6ed34c3b9d0a55ee99a5620c369c8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 032/106] fix: cases are not numbered

---
 plasTeX/Packages/amsmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..4fe6d32 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -67,7 +67,7 @@ class aligned(_AMSEquationStar):
 class gathered(MathEnvironmentPre):
     pass
 
-class cases(_AMSEquation):
+class cases(split):
     pass
 
 class flalign(_AMSEquation):
-- 
2.43.0


From 95d7745e86286c4572cb034252c99352cea34030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 033/106] fix: a global assignment replaces definitions of all
 groups

---
 plasTeX/Context.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a459c59..35e4780 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -805,7 +805,10 @@ class Context(object):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
         name = macroName(value)
-        self.contexts[0].lets.pop(name, None)
+        # A global definition replaces the local ones
+        for context in self.contexts:
+            context.pop(name, None)
+            context.lets.pop(name, None)
         self.contexts[0][name] = value
 
     __setitem__ = addGlobal
@@ -1173,10 +1176,6 @@ class Context(object):
         if local:
             self.addLocal(name, newclass)
         else:
-            # A global definition replaces the local ones
-            for context in self.contexts:
-                context.pop(name, None)
-                context.lets.pop(name, None)
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
-- 
2.43.0


From f5c13a9497853bb594cca1e94e5163bf9f630199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 034/106] fix: unnumbered deep sections do not step counters

---
 plasTeX/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index e179701..e56f939 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -572,7 +572,15 @@ class Macro(Element):
         """
         if self.counter is not None:
             self.ownerDocument.context.currentlabel = self
-            self.stepcounter(tex)
+            if self.isNumbered:
+                self.stepcounter(tex)
+
+    @property
+    def isNumbered(self):
+        """ Is this macro within the numbering depth? """
+        try: secnumdepth = self.config['document']['sec-num-depth']
+        except: secnumdepth = 10
+        return secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL
 
     def postParse(self, tex):
         """
@@ -583,9 +591,7 @@ class Macro(Element):
 
         """
         if self.counter:
-            try: secnumdepth = self.config['document']['sec-num-depth']
-            except: secnumdepth = 10
-            if secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL:
+            if self.isNumbered:
                 self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
                 self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
 
-- 
2.43.0


From 8a663c15001f6d3aabf6948aa3fe144ad1bafa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 035/106] fix: \the<counter> containing groups can be printed

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index e56f939..3b0875f 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1730,7 +1730,7 @@ class TheCounter(Command):
 
             # If there is a reference to another \\thecounter, invoke it
             if name.startswith('the') and name != re.sub(r'^the', '', self.__class__.__name__):
-                return ''.join(tex.expandTokens(self.ownerDocument.createElement(name).invoke(tex)))
+                return tex.expandTokens(self.ownerDocument.createElement(name).invoke(tex)).textContent
 
             # Get formatted value of the requested counter
             format = m.group(2)
-- 
2.43.0


From 9f1315d0a24e7ddacdd40a473b39a0e52121cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 036/106] fix: special characters in labels are taken literally

---
 plasTeX/TeX.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 5d120e8..6532be0 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -788,6 +788,11 @@ class TeX(object):
         if type in ['cs'] or self.isNumeric(type):
             expanded = False
 
+        # All characters are allowed in the names of labels
+        isLabel = expanded and self.isLabel(type)
+        if isLabel:
+            expanded = False
+
         priorcodes = {}
 
         try:
@@ -828,6 +833,11 @@ class TeX(object):
         if toks is None:
             ParameterCommand.enable()
             return default, ''
+
+        if isLabel:
+            toks = self.expandTokens([Other(t) if t.catcode in self.labelCodes else t
+                                      for t in toks], parentNode=parentNode)
+
         res = self.cast(toks, type, subtype, delim, parentNode, name)
 
         # Normalize any document fragments
@@ -1056,6 +1066,14 @@ class TeX(object):
 
         return tokens
 
+    # Category codes of special characters that are taken literally in labels
+    labelCodes = (Token.CC_MATHSHIFT, Token.CC_ALIGNMENT,
+                  Token.CC_SUPER, Token.CC_SUB)
+
+    def isLabel(self, dtype):
+        """ Is this an argument type that names a label? """
+        return self.argtypes.get(dtype) in [self.castLabel, self.castRef]
+
     def isNumeric(self, dtype):
         """ Is this an argument type that is cast by a numeric scanner? """
         return self.argtypes.get(dtype) in [self.castNumber, self.castDecimal,
-- 
2.43.0


From f2e9e2a1a2c9b591d90eeb607ec9978ef8a85264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 037/106] fix: labels in a group do not attach to objects of
 groups that have ended

---
 plasTeX/Base/LaTeX/Math.py |  3 ++-
 plasTeX/Context.py         | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index bc7daf3..bcdf06a 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -183,10 +183,11 @@ class eqnarray(EqnarrayStar):
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-            self.ownerDocument.context.currentlabel = res[1]
             for c in reversed(self.ownerDocument.context.contexts):
                 if isinstance(c.obj, eqnarray):
                     c.obj.currentRow = res[1]
+                    if self.counter:
+                        c.currentlabel = res[1]
                     break
             return res
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 35e4780..e1dc229 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -40,6 +40,7 @@ class ContextItem(dict):
         self.obj = None
         self.parent = None
         self.owner = None
+        self.currentlabel = None
 
     @property
     def name(self):
@@ -170,9 +171,6 @@ class Context(object):
         # Stack of ContextItems
         self.contexts = []
 
-        # Object that the current label points to
-        self.currentlabel = None
-
         # Labeled objects
         self.labels = {}
         self.persistentLabels = {}
@@ -552,6 +550,24 @@ class Context(object):
         return False
 
 
+    @property
+    def currentlabel(self):
+        """ Object that the current label points to """
+        for context in reversed(self.contexts):
+            if context.currentlabel is not None:
+                return context.currentlabel
+        return None
+
+    @currentlabel.setter
+    def currentlabel(self, value):
+        # This is local to the innermost group or environment (but not
+        # to the arguments of a command)
+        for context in reversed(self.contexts):
+            obj = context.obj
+            if obj is None or obj.macroMode != plasTeX.Macro.MODE_NONE:
+                break
+        context.currentlabel = value
+
     def label(self, label, node=None):
         """
         Set a label to the current labelable object
-- 
2.43.0


From f702a2334e40effabf7f313412bd71f13ac1a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 038/106] fix: read the arguments of @, !, m and b in column
 specifications

---
 plasTeX/Base/LaTeX/Arrays.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..2802013 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -52,6 +52,8 @@ ColumnType.new('L', {'text-align':'left'})
 ColumnType.new('J', {'text-align':'left'})
 ColumnType.new('X', {'text-align':'left'})
 ColumnType.new('p', {'text-align':'left'}, args='width:str')
+ColumnType.new('m', {'text-align':'left'}, args='width:str')
+ColumnType.new('b', {'text-align':'left'}, args='width:str')
 ColumnType.new('d', {'text-align':'right'}, args='delim:str')
 
 
@@ -547,9 +549,10 @@ class Array(Environment):
                 output[-1].after = tex.readArgument()
                 continue
 
-            if tok == '@':
+            if tok in ['@','!']:
+                between = tex.readArgument()
                 if output:
-                    output[-1].between = tex.readArgument()
+                    output[-1].between = between
                 continue
 
             if tok == '*':
@@ -561,7 +564,7 @@ class Array(Environment):
 
             output.append(ColumnType.columnTypes.get(tok, ColumnType)())
 
-            if tok.lower() in ['p','d']:
+            if tok.lower() in ['p','m','b','d']:
                 tex.readArgument()
 
             if before:
-- 
2.43.0


From b7fcfeb40f05981df8df4fae9844b9cd4c89195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 039/106] fix: \cline after spanning cells marks the right
 columns

---
 plasTeX/Base/LaTeX/Arrays.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 2802013..607940b 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -149,12 +149,10 @@ class Array(Environment):
                 location = self.locations[self.position]
             colnum = 1
             for cell in cells:
-                if colnum < start or colnum > end:
-                    colnum += 1
-                    continue
-                cell.style['border-%s-style' % location] = 'solid'
-                cell.style['border-%s-color' % location] = 'black'
-                cell.style['border-%s-width' % location] = '1px'
+                if start <= colnum <= end:
+                    cell.style['border-%s-style' % location] = 'solid'
+                    cell.style['border-%s-color' % location] = 'black'
+                    cell.style['border-%s-width' % location] = '1px'
                 if cell.attributes:
                     colnum += cell.attributes.get('colspan', 1)
                 else:
-- 
2.43.0


From f6629564df01fa7c6c094d5c0d3bc0ccdc9d90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 040/106] fix: column specifications of spanning cells start at
 their column

---
 plasTeX/Base/LaTeX/Arrays.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 607940b..502b51d 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -444,8 +444,9 @@ class Array(Environment):
         # Link cells to colspec
         if self.colspec:
             for r, row in enumerate(self):
-                for c, cell in enumerate(row):
-                    colspan = cell.attributes.get('colspan', 0)
+                c = 0
+                for cell in row:
+                    colspan = cell.attributes.get('colspan', 1)
                     if colspan > 1:
                         try:
                             cell.colspecStart = self.colspec[c]
@@ -455,6 +456,7 @@ class Array(Environment):
                                 del cell.colspecStart
                             if hasattr(cell, 'colspecEnd'):
                                 del cell.colspecEnd
+                    c += colspan
 
         # Determine the number of rows by counting cells
         if self:
-- 
2.43.0


From 83957d529c49b297dbc109d63a8098506e2225c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 041/106] fix: rules of leading empty rows belong to the first
 row

---
 plasTeX/Base/LaTeX/Arrays.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 502b51d..2c72b48 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -473,7 +473,6 @@ class Array(Environment):
         Apply borders from \\(h|c|v)line and colspecs
 
         """
-        lastrow = len(self) - 1
         emptyrows = []
         prev = None
         for i, row in enumerate(self):
@@ -482,10 +481,13 @@ class Array(Environment):
             # If the row is only here to apply borders, apply the
             # borders to the adjacent row.  Empty rows are deleted later.
             if row.isBorderOnly:
-                if i == 0 and lastrow:
-                    row.applyBorders(self[1], 'top')
-                elif prev is not None:
+                if prev is not None:
                     row.applyBorders(prev, 'bottom')
+                else:
+                    for other in self[i+1:]:
+                        if isinstance(other, Array.ArrayRow) and not other.isBorderOnly:
+                            row.applyBorders(other, 'top')
+                            break
                 emptyrows.insert(0, i)
             else:
                 row.applyBorders()
-- 
2.43.0


From cfac114a469c6db2f6f523d1c8aa6117219e3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 042/106] fix: multicolumn specifications count in arrays
 without one

---
 plasTeX/Base/LaTeX/Arrays.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 2c72b48..9679de6 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -491,17 +491,19 @@ class Array(Environment):
                 emptyrows.insert(0, i)
             else:
                 row.applyBorders()
-                if self.colspec:
-                    # Expand multicolumns so that they don't mess up
-                    # the colspec attributes
-                    cells = []
-                    for cell in row:
-                        span = 1
-                        if cell.attributes:
-                            span = cell.attributes.get('colspan', 1)
-                        cells += [cell] * span
-                    for spec, cell in zip(self.colspec, cells):
-                        spec = getattr(cell, 'colspec', spec)
+                # Expand multicolumns so that they don't mess up
+                # the colspec attributes
+                cells = []
+                for cell in row:
+                    span = 1
+                    if cell.attributes:
+                        span = cell.attributes.get('colspan', 1)
+                    cells += [cell] * span
+                for i, cell in enumerate(cells):
+                    spec = getattr(cell, 'colspec', None)
+                    if spec is None and self.colspec and i < len(self.colspec):
+                        spec = self.colspec[i]
+                    if spec is not None:
                         cell.style.update(spec.style)
                 prev = row
 
-- 
2.43.0


From d6f75ee2e3a5016abc2b85e5dfb97b2873dbd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 043/106] fix: any character can delimit \verb, the category
 codes are changed before it is read

---
 plasTeX/Base/LaTeX/Verbatim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Verbatim.py b/plasTeX/Base/LaTeX/Verbatim.py
index d842d60..5e6d1bb 100644
--- a/plasTeX/Base/LaTeX/Verbatim.py
+++ b/plasTeX/Base/LaTeX/Verbatim.py
@@ -4,8 +4,6 @@ C.6.4 Verbatim
 """
 
 from plasTeX import VerbatimEnvironment, Command, sourceArguments, sourceChildren
-from plasTeX.Base.TeX.Text import bgroup
-from plasTeX.Tokenizer import Other
 
 class verbatim(VerbatimEnvironment):
     pass
@@ -29,13 +27,13 @@ class verb(Command):
     def invoke(self, tex):
         """ Parse for matching delimiters """
         self.ownerDocument.context.push(self)
-        self.parse(tex)
+        # The delimiter can be any character, so the category codes must
+        # be changed before looking for the optional star
         self.ownerDocument.context.setVerbatimCatcodes()
+        self.parse(tex)
         # See what the delimiter is
         for endpattern in tex:
             self.delimiter = endpattern
-            if isinstance(endpattern, bgroup):
-                self.delimiter = endpattern = Other('}')
             break
         tokens = [self, endpattern]
         # Parse until this delimiter is seen again
-- 
2.43.0


From 8e8d66a95cb0dcb5f84472cb014ffd11e0daa4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 044/106] fix: \endverbatim does not end \begin{verbatim}

---
 plasTeX/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3b0875f..5eb63a9 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1049,7 +1049,8 @@ class VerbatimEnvironment(NoCharSubEnvironment):
                         res = [end]
                     tex.pushTokens(res)
                     break
-            if len(tokens) >= endlength2:
+            if self.macroMode == Environment.MODE_NONE and \
+               len(tokens) >= endlength2:
                 if tokens[-endlength2:] == endpattern2:
                     tokens = tokens[:-endlength2]
                     self.ownerDocument.context.pop(self)
-- 
2.43.0


From a6b967311fee3c247e3fa6174b9ffc657f38a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 045/106] fix: rows with nothing but rules are a part of the
 source of an array

---
 plasTeX/Base/LaTeX/Arrays.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 9679de6..9113a39 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -6,7 +6,7 @@ C.10.2 The array and tabular Environments
 import sys
 from plasTeX import Macro, Environment, Command, DimenCommand
 from plasTeX import sourceChildren, sourceArguments
-from typing import Optional
+from typing import List, Optional
 
 class ColumnType(Macro):
 
@@ -66,6 +66,7 @@ class Array(Environment):
     colspec = None
     blockType = True
     captionable = True
+    poppedRows = [] # type: List
 
     class caption(Command):
         """ Table caption """
@@ -204,6 +205,7 @@ class Array(Environment):
     class ArrayRow(Macro):
         """ Table row class """
         endToken = None
+        poppedRows = [] # type: List
 
         def digest(self, tokens):
             # Absorb tokens until the end of the row
@@ -507,9 +509,11 @@ class Array(Environment):
                         cell.style.update(spec.style)
                 prev = row
 
-        # Pop empty rows
+        # Pop empty rows (they are still a part of the source)
         for i in emptyrows:
-            self.pop(i)
+            row = self.pop(i)
+            owner = self[i] if i < len(self) else self
+            owner.poppedRows = [row] + owner.poppedRows
 
     @classmethod
     def compileColspec(cls, tex, colspec):
@@ -602,7 +606,10 @@ class Array(Environment):
                 argSource = ' '
             s.append('%sbegin{%s}%s' % (escape, name, argSource))
             if self.hasChildNodes():
+                rows = []
                 for row in self:
+                    rows += row.poppedRows + [row]
+                for row in rows + self.poppedRows:
                     for cell in row:
                         s.append(sourceChildren(cell, par=not(self.mathMode)))
                         if cell.endToken is not None:
-- 
2.43.0


From 44cec884a6dae003453cd2521689f54c0ec3ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 046/106] fix: formulas in \text, \fbox, \makebox, \raisebox,
 \parbox and \emph within formulas

---
 plasTeX/Base/LaTeX/Boxes.py     | 6 +++---
 plasTeX/Base/LaTeX/Math.py      | 4 +++-
 plasTeX/Base/LaTeX/Sentences.py | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index 0cc87ac..8a1a907 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -8,7 +8,7 @@ from plasTeX import Command, Environment
 from plasTeX import DimenCommand, GlueCommand
 
 
-class TextBoxCommand(Command):
+class TextBoxCommand(BoxCommand):
 
     class width(DimenCommand):
         value = DimenCommand.new(0)
@@ -29,7 +29,7 @@ class mbox(BoxCommand):
 class makebox(TextBoxCommand):
     args = '[ width:dimen ] [ pos:str ] self'
 
-class fbox(Command):
+class fbox(BoxCommand):
     args = 'self'
 
 class framebox(TextBoxCommand):
@@ -50,7 +50,7 @@ class lrbox(Environment):
 class usebox(Command):
     args = 'name:cs'
 
-class parbox(Command):
+class parbox(BoxCommand):
     args = '[ pos:str ] width:dimen self'
 
 class minipage(Environment):
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index bcdf06a..367b879 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -3,7 +3,9 @@ C.7 Mathematical Formulas (p187)
 
 """
 
+import re
 from plasTeX.Base.LaTeX.Arrays import Array
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
 from plasTeX import DimenCommand, GlueCommand, TeXFragment
 from typing import Optional
@@ -707,7 +709,7 @@ class boldmath(Command):
 class unboldmath(Command):
     pass
 
-class text(Command):
+class text(BoxCommand):
     args = 'self'
 
 # Math Style
diff --git a/plasTeX/Base/LaTeX/Sentences.py b/plasTeX/Base/LaTeX/Sentences.py
index eefbc59..2237f60 100644
--- a/plasTeX/Base/LaTeX/Sentences.py
+++ b/plasTeX/Base/LaTeX/Sentences.py
@@ -3,6 +3,7 @@ C.3.1 Making Sentences (p170)
 
 """
 
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment
 
 
@@ -86,7 +87,7 @@ class TeX(Command):
 # Misc
 #
 
-class emph(Command):
+class emph(BoxCommand):
     args = 'self'
 
 class em(Environment):
-- 
2.43.0


From 44ba8efac48bcc41035900aa173ac63878583fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 047/106] fix: \> in formulas handed to MathJax

---
 plasTeX/Base/LaTeX/Math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 367b879..f468677 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -57,7 +57,9 @@ class MathEnvironmentPre(MathEnvironment):
 
 def mathjax_lt_gt(s: str) -> str:
     """Help mathjax deal with < and >, see http://docs.mathjax.org/en/latest/input/tex/html.html?highlight=lt#html-special-characters."""
-    return s.replace('<', r'\lt ').replace('>', r'\gt ')
+    symbols = {'<': r'\lt ', '>': r'\gt '}
+    # \< and \> are commands, not relations
+    return re.sub(r'\\.|[<>]', lambda m: symbols.get(m.group(), m.group()), s, flags=re.S)
 
 class math(MathEnvironment):
     @property
-- 
2.43.0


From 68ba4ec5088361bbedba7587174a19d22f0a7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 048/106] fix: no character substitutions in cells of arrays
 within formulas, no paragraphs in matrices, \substack in cells

---
 plasTeX/Base/LaTeX/Math.py  | 12 ++++++++++++
 plasTeX/Packages/amsmath.py | 32 +++++++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index f468677..c68bf21 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -171,12 +171,24 @@ class EqnarrayStar(Array, MathEnvironmentPre, NoCharSubEnvironment):
 
         @property
         def charsubs(self):
+            # Arrays within other mathematics are just a part of it
+            node = self.parentNode
+            while node is not None and not isinstance(node, EqnarrayStar):
+                node = node.parentNode
+            if node is not None and node.isNested:
+                return []
             return self.ownerDocument.charsubs
 
         @property
         def source(self):
             return '$\\displaystyle %s $' % sourceChildren(self, par=False)
 
+    isNested = False
+
+    def invoke(self, tex):
+        self.isNested = self.ownerDocument.context.isMathMode
+        return Array.invoke(self, tex)
+
 class eqnarray(EqnarrayStar):
     macroName = None
     counter: Optional[str] = 'equation'
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 4fe6d32..8c7709f 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -10,7 +10,7 @@ from plasTeX.Logging import getLogger
 deflog = getLogger('parse.definitions')
 
 class pmatrix(Array):
-    pass
+    mathMode = True
 
 class _AMSEquation(eqnarray):
     pass
@@ -87,20 +87,38 @@ class MultlineStar(MultilineStar):
     macroName = 'multline*'
 
 class matrix(Array):
-    pass
+    mathMode = True
 
 class vmatrix(Array):
-    pass
+    mathMode = True
 class Vmatrix(Array):
-    pass
+    mathMode = True
 
 class bmatrix(Array):
-    pass
+    mathMode = True
 class Bmatrix(Array):
-    pass
+    mathMode = True
 
 class smallmatrix(Array):
-    pass
+    mathMode = True
+
+class subarray(Array):
+    args = 'colspec:nox'
+    mathMode = True
+
+class substack(Command):
+    args = 'self'
+
+    class EndLine(Command):
+        """ End of a line """
+        macroName = '\\'
+        args = '* [ space ]'
+
+    def invoke(self, tex):
+        # The lines are not rows of an enclosing array
+        self.ownerDocument.context.push(self)
+        self.parse(tex)
+        self.ownerDocument.context.pop(self)
 
 class dddot(math):
     pass
-- 
2.43.0


From a366d3952027292ed4015e92e460fede4a1c423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 049/106] fix: text that looks like an image-size placeholder
 is left alone in the output

---
 plasTeX/Renderers/PageTemplate/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..57a3aae 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -604,7 +604,7 @@ class PageTemplate(BaseRenderer):
 
     def processFileContent(self, document, s):
         # Add width, height, and depth to images
-        s = re.sub(r'&amp;(\S+)-(width|height|depth);(?:&amp;([a-z]+);)?',
+        s = re.sub(r'&amp;([^\s&;]+)-(width|height|depth);(?:&amp;([a-z]+);)?',
                    self.setImageData, s)
 
         # Convert characters >127 to entities
@@ -645,7 +645,8 @@ class PageTemplate(BaseRenderer):
                 return str(getattr(img, parameter))
         except KeyError: pass
 
-        return '&%s-%s;' % (filename, parameter)
+        # Not the name of an image: this is text of the document
+        return m.group()
 
 
 # Set Renderer variable so that plastex will know how to load it
-- 
2.43.0


From 3433136a0322f799077eec82b252342531a42120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 050/106] fix: paragraphs and cells that hold only a no-break
 or wide space are kept

---
 plasTeX/Renderers/HTML5/__init__.py | 4 ++--
 plasTeX/Renderers/XHTML/__init__.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/__init__.py b/plasTeX/Renderers/HTML5/__init__.py
index 15b0adc..72c2646 100755
--- a/plasTeX/Renderers/HTML5/__init__.py
+++ b/plasTeX/Renderers/HTML5/__init__.py
@@ -98,10 +98,10 @@ class HTML5(_Renderer):
         s = _Renderer.processFileContent(self, document, s)
 
         # Remove empty paragraphs
-        s = re.compile(r'<p>\s*</p>', re.I).sub(r'', s)
+        s = re.compile(r'<p>[ \t\r\n\f]*</p>', re.I).sub(r'', s)
 
         # Add a non-breaking space to empty table cells
-        s = re.compile(r'(<(td|th)\b[^>]*>)\s*(</\2>)', re.I).sub(r'\1&nbsp;\3', s)
+        s = re.compile(r'(<(td|th)\b[^>]*>)[ \t\r\n\f]*(</\2>)', re.I).sub(r'\1&nbsp;\3', s)
 
         for fun in document.rendererdata['html5'].get('processFileContents', []):
             s = fun(document, s)
diff --git a/plasTeX/Renderers/XHTML/__init__.py b/plasTeX/Renderers/XHTML/__init__.py
index 03e6b6a..62ea9f3 100644
--- a/plasTeX/Renderers/XHTML/__init__.py
+++ b/plasTeX/Renderers/XHTML/__init__.py
@@ -20,10 +20,10 @@ class XHTML(_Renderer):
                        re.I|re.S).sub(r'\1 /\2', s)
 
         # Remove empty paragraphs
-        s = re.compile(r'<p>\s*</p>', re.I).sub(r'', s)
+        s = re.compile(r'<p>[ \t\r\n\f]*</p>', re.I).sub(r'', s)
 
         # Add a non-breaking space to empty table cells
-        s = re.compile(r'(<(td|th)\b[^>]*>)\s*(</\2>)', re.I).sub(r'\1&nbsp;\3', s)
+        s = re.compile(r'(<(td|th)\b[^>]*>)[ \t\r\n\f]*(</\2>)', re.I).sub(r'\1&nbsp;\3', s)
 
         return s
 
-- 
2.43.0


From d591aa50c1b5cb41931c74fccc00b4e7a20f9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 051/106] fix: a text of no-break or wide spaces is not white
 space between elements

---
 plasTeX/DOM/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 113b69a..db5be28 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1783,7 +1783,9 @@ class Text(CharacterData):
 
     @property
     def isElementContentWhitespace(self):
-        return not(self.strip())
+        # The white space of XML, as in the DOM specification: a no-break or wide
+        # space is content
+        return not(self.strip(' \t\r\n\f'))
 
     @property
     def wholeText(self):
-- 
2.43.0


From b5e9c7e00f8bf555296b7a3b4eaf62b4eedee575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 052/106] fix: highlighted listings are markup in XHTML, plain
 ones are text in HTML5

---
 plasTeX/Renderers/HTML5/listings.jinja2s | 4 ++--
 plasTeX/Renderers/XHTML/listings.zpts    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/listings.jinja2s b/plasTeX/Renderers/HTML5/listings.jinja2s
index a325f85..629f117 100644
--- a/plasTeX/Renderers/HTML5/listings.jinja2s
+++ b/plasTeX/Renderers/HTML5/listings.jinja2s
@@ -10,12 +10,12 @@ name:lstinputlisting lstlisting
 {% if obj.html_listing  %}
 {{ obj.html_listing  }}
 {% else %}
-<code class="plain_listing">{{ obj.plain_listing }}</code>
+<code class="plain_listing">{{ obj.plain_listing|e }}</code>
 {% endif %}
 
 name: lstinline
 {% if obj.html_listing  %}
 <code class="lstlinline">{{ obj.html_listing  }}</code>
 {%- else -%}
-<code class="plain_lstlinline">{{ obj.plain_listing }}</code>
+<code class="plain_lstlinline">{{ obj.plain_listing|e }}</code>
 {%- endif -%}
diff --git a/plasTeX/Renderers/XHTML/listings.zpts b/plasTeX/Renderers/XHTML/listings.zpts
index 10f6c2e..4f38806 100644
--- a/plasTeX/Renderers/XHTML/listings.zpts
+++ b/plasTeX/Renderers/XHTML/listings.zpts
@@ -5,9 +5,9 @@ name:lstinputlisting lstlisting
   <b tal:content='string:${self/captionName} ${self/ref}'></b>: 
   <span tal:replace='self/attributes/arguments/caption'></span>
 </div>
-<pre tal:condition="self/html_listing" tal:replace='self/html_listing'></pre>
+<pre tal:condition="self/html_listing" tal:replace='structure self/html_listing'></pre>
 <pre tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></pre>
 
 name: lstinline
-<tt tal:condition="self/html_listing" tal:replace='self/html_listing'></tt>
+<tt tal:condition="self/html_listing" tal:replace='structure self/html_listing'></tt>
 <tt tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></tt>
-- 
2.43.0


From 02b86fc11c2749bd0b9be579f926035633fcca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 053/106] fix: characters that the output encoding lacks are
 written as references

---
 plasTeX/Renderers/PageTemplate/__init__.py | 1 +
 plasTeX/Renderers/__init__.py              | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 57a3aae..957387e 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -279,6 +279,7 @@ class PageTemplate(BaseRenderer):
     """ Renderer for page template based documents """
 
     outputType = str
+    outputErrors = 'xmlcharrefreplace'
     fileExtension = '.xml'
 
     def __init__(self, *args, **kwargs):
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..3430c56 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,7 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc, errors=r.outputErrors) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -358,6 +358,8 @@ class Renderer(dict):
     imageAttrs = '&${filename}-${attr};'
     imageUnits = '&${units};'
     encodingErrors = 'replace'
+    # What to do with characters that the output encoding doesn't have
+    outputErrors = 'replace'
 
     def __init__(self, data=None):
         dict.__init__(self, data or {})
@@ -568,7 +570,7 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding, errors=self.outputErrors) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From eaca6877c982112901efe30591895a5f4a8f5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 054/106] fix: the first line of a listing keeps its
 indentation

---
 plasTeX/Packages/listings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/listings.py b/plasTeX/Packages/listings.py
index e9be29e..db0b4b6 100644
--- a/plasTeX/Packages/listings.py
+++ b/plasTeX/Packages/listings.py
@@ -122,7 +122,7 @@ class lstlisting(VerbatimEnvironment):
     def digest(self, tokens):
         VerbatimEnvironment.digest(self, tokens)
         args = self.attributes.get('arguments') or dict()
-        _format(self, self.textContent.strip(), wrap=True,
+        _format(self, _trim(self.textContent), wrap=True,
                 language=args.get('language'))
 
 
@@ -186,6 +186,10 @@ class lstinputlisting(Command):
         encoding = self.config['files']['input-encoding']
         _format(self, open(self.attributes['file'],  encoding=encoding), wrap=True)
 
+def _trim(text: str) -> str:
+    """ Remove empty lines around a listing, but not the indentation of its first line """
+    return re.sub(r'\A([ \t]*\n)+', '', text).rstrip(' \t\n')
+
 def _format(self, file, wrap: bool, language:Optional[str] = None) -> None:
     arguments = self.attributes['arguments'] or dict()
     doc = self.ownerDocument
@@ -227,7 +231,7 @@ def _format(self, file, wrap: bool, language:Optional[str] = None) -> None:
             else:
                 self.plain_listing += '\n' + line
 
-    self.plain_listing = self.plain_listing.strip()
+    self.plain_listing = _trim(self.plain_listing)
     # Create a syntax highlighted XHTML version of the file using Pygments
     if pygments is not None:
         ctx = doc.context
-- 
2.43.0


From 2732eb50c9582db02066c9e558debc25d025a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 055/106] fix: titles in attributes are escaped in HTML5

---
 plasTeX/Renderers/HTML5/Index.jinja2s                |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2       | 12 ++++++------
 .../HTML5/Themes/default/document-layout.jinja2      | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..9a8523a 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..29dd574 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..455ebd1 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
-- 
2.43.0


From 48df5cc2ee62f9d2d50acab91928356ce7fce680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 056/106] fix: the source in the alt attribute of images is
 escaped in HTML5

---
 plasTeX/Renderers/HTML5/FontSelection.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/Pictures.jinja2s      | 2 +-
 plasTeX/Renderers/HTML5/Tabbing.jinja2s       | 2 +-
 plasTeX/Renderers/HTML5/graphicx.jinja2s      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/FontSelection.jinja2s b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
index 3b72b22..f9c2a8a 100644
--- a/plasTeX/Renderers/HTML5/FontSelection.jinja2s
+++ b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
@@ -84,5 +84,5 @@ name: Huge
 name: symbol
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }} vertical-align: {{ obj.vectorImage.depth.em }}">
-  <img src="obj.image.url" alt="{{ obj.source }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
+  <img src="obj.image.url" alt="{{ obj.source | e }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
 </object>
diff --git a/plasTeX/Renderers/HTML5/Pictures.jinja2s b/plasTeX/Renderers/HTML5/Pictures.jinja2s
index 2296bf9..82bf863 100644
--- a/plasTeX/Renderers/HTML5/Pictures.jinja2s
+++ b/plasTeX/Renderers/HTML5/Pictures.jinja2s
@@ -3,7 +3,7 @@ name: picture
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Tabbing.jinja2s b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
index 4e413bc..65fdf53 100644
--- a/plasTeX/Renderers/HTML5/Tabbing.jinja2s
+++ b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
@@ -3,7 +3,7 @@ name: tabbing
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/graphicx.jinja2s b/plasTeX/Renderers/HTML5/graphicx.jinja2s
index e39a01f..5b63e6d 100755
--- a/plasTeX/Renderers/HTML5/graphicx.jinja2s
+++ b/plasTeX/Renderers/HTML5/graphicx.jinja2s
@@ -5,9 +5,9 @@ name: includegraphics rotatebox scalebox reflectbox resizebox
 {% set image = obj.image %}
 {% endif %}
 {% if obj.style %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="{{ obj.style.inline}}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="{{ obj.style.inline}}" />
 {% else %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
 {% endif %}
 
 name: DeclareGraphicsExtensions graphicspath
-- 
2.43.0


From 3a242c0ca19ebf1413792ed9d97669d81dd30da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 057/106] fix: the note of a citation is rendered, not copied
 to the output

---
 plasTeX/Base/LaTeX/Bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..8a5d722 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -126,7 +126,11 @@ class cite(Command):
             else:
                 if self.postnote:
                     res.append(', ')
-                    res.append(self.postnote)
+                    # Templates render the items one by one: the note has
+                    # to be inside of one in order to be rendered
+                    node = self.ownerDocument.createElement('bgroup')
+                    node.extend(self.postnote)
+                    res.append(node)
                 res.append(']')
         return res
 
-- 
2.43.0


From 6520131d8789c5ecbe24ea37ffd7724dbf0e016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 058/106] fix: quotes in the text are escaped, because rendered
 text also stands in attributes

---
 plasTeX/Renderers/PageTemplate/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 957387e..b50eaf6 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -336,6 +336,8 @@ class PageTemplate(BaseRenderer):
             node = node.replace('&', '&amp;')
             node = node.replace('<', '&lt;')
             node = node.replace('>', '&gt;')
+            # Templates also put rendered text in attributes
+            node = node.replace('"', '&quot;')
         return self.outputType(node)
 
     def loadTemplates(self, document):
-- 
2.43.0


From 5c1acebdef09185d7546538ea6b0ee5cfe5fdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 059/106] fix: addresses are escaped once in XHTML

---
 plasTeX/Renderers/XHTML/hyperref.zpts | 8 ++++----
 plasTeX/Renderers/XHTML/url.zpts      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e8919f5..b85dad5 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -1,8 +1,8 @@
 name: href
-<a tal:attributes="href self/attributes/url" tal:content="self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent" tal:content="self">link text</a>
 
 name: url
-<a tal:attributes="href self/attributes/url | self" tal:content="self/attributes/url | self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent | self/textContent" tal:content="self/attributes/url | self">link text</a>
 
 name: nolinkurl
 <span tal:replace="self/attributes/url">url</span>
@@ -10,13 +10,13 @@ name: nolinkurl
 name: hyperbaseurl
 
 name: hyperimage
-<img tal:attributes="src self/attributes/url" />
+<img tal:attributes="src self/attributes/url/textContent" />
 
 name: hyperdef
 <a tal:attributes="name string:${self/attributes/category}.${self/attributes/name}" tal:content="self">text</a>
 
 name: -hyperref
-<a tal:attributes="href string:${self/attributes/url}#${self/attributes/category}.${self/attributes/name}" tal:content="self">link text</a>
+<a tal:attributes="href string:${self/attributes/url/textContent}#${self/attributes/category}.${self/attributes/name}" tal:content="self">link text</a>
 
 name: hyperref
 <a tal:attributes="href self/idref/label/url" tal:content="self">link text</a>
diff --git a/plasTeX/Renderers/XHTML/url.zpts b/plasTeX/Renderers/XHTML/url.zpts
index 153bc6a..048e35d 100644
--- a/plasTeX/Renderers/XHTML/url.zpts
+++ b/plasTeX/Renderers/XHTML/url.zpts
@@ -1,4 +1,4 @@
 name: -url email path
-<a tal:attributes="href self" tal:content="self">url text</a>
+<a tal:attributes="href self/textContent" tal:content="self">url text</a>
 
 name: urldef urlstyle DeclareUrlCommand
-- 
2.43.0


From 6aa1b71566e5892cb39f215627c346346ec7e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 060/106] fix: theorem headings of amsthm are rendered, not
 copied to the output

---
 plasTeX/Packages/amsthm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 96a53be..e072cd4 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -165,7 +165,7 @@ class newtheorem(Command):
         self.parse(tex)
         a = self.attributes
         name = str(a['name'])
-        header = a['header'].textContent
+        header = a['header']
         star = a['*modifier*'] == '*'
         parent = a['parent']
         shared = a['shared']
-- 
2.43.0


From 048fcd2cbd5de523176bf9d5a87d831194d1bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 061/106] fix: character substitutions do not change addresses
 of the url package

---
 plasTeX/Packages/url.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plasTeX/Packages/url.py b/plasTeX/Packages/url.py
index 75a6e28..ed1b164 100644
--- a/plasTeX/Packages/url.py
+++ b/plasTeX/Packages/url.py
@@ -3,6 +3,11 @@ from plasTeX.Base import Command
 class url(Command):
     args = 'url:url'
 
+    def invoke(self, tex):
+        res = Command.invoke(self, tex)
+        self.nonNormalizedAttrs = ['url']
+        return res
+
 class urldef(Command):
     args = 'name:cs type:cs'
 
-- 
2.43.0


From 2faeb0f7f2bc6943b3c63922b6bd8ef0e01e8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 062/106] fix: the style sheet of listings is written in the
 output encoding, in which it is read back

---
 plasTeX/Packages/listings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/listings.py b/plasTeX/Packages/listings.py
index db0b4b6..8ab0f7f 100644
--- a/plasTeX/Packages/listings.py
+++ b/plasTeX/Packages/listings.py
@@ -30,7 +30,8 @@ def ProcessOptions(options, document):
 
 def make_pygments_css(document):
     path = Path('styles')/'pygments.css'
-    path.write_text(HtmlFormatter().get_style_defs())
+    path.write_text(HtmlFormatter().get_style_defs(),
+                    encoding=document.config['files']['output-encoding'])
     return [str(path)]
 
 class lstset(Command):
-- 
2.43.0


From 257eec977365b0c7d0925658608bcc6ae28afd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 063/106] fix: a tie counts as a space in the text of titles

---
 plasTeX/Base/TeX/Text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Base/TeX/Text.py b/plasTeX/Base/TeX/Text.py
index 4060bf5..6991852 100644
--- a/plasTeX/Base/TeX/Text.py
+++ b/plasTeX/Base/TeX/Text.py
@@ -140,6 +140,7 @@ class allowbreak(Command):
 
 class ControlSpace(Command):
     macroName = 'active::~'
+    str = '\u00A0'
 
 class slash(Command):
     str = '/'
-- 
2.43.0


From 7247b812a18838fc449d07fac6530640d4112468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 064/106] fix: dollar signs in addresses are ordinary
 characters

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 6532be0..26e1ea0 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -76,7 +76,7 @@ class TeX(object):
 
         # TeX arguments types and their casting functions
         self.argtypes = {
-            'url': (self.castNone, {'#':12,'~':12,'%':12,'&':12}),
+            'url': (self.castNone, {'#':12,'~':12,'%':12,'&':12,'$':12}),
             'str': self.castString,
             str: self.castString,
             'chr': self.castString,
-- 
2.43.0


From b90919e63a0499c7c497a710114c33d0f1b912cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 065/106] fix: quotes and dashes in alltt are shown as they are

---
 plasTeX/Packages/alltt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Packages/alltt.py b/plasTeX/Packages/alltt.py
index 8a86646..d9ad7b2 100644
--- a/plasTeX/Packages/alltt.py
+++ b/plasTeX/Packages/alltt.py
@@ -19,3 +19,6 @@ class alltt(Environment):
         Environment.invoke(self, tex)
         self.ownerDocument.context.pop(self)
 
+    def normalize(self, charsubs=None):
+        """ Normalize, but don't allow character substitutions """
+        return Environment.normalize(self)
-- 
2.43.0


From 908dec72c392482625e685bec801d7b2ab6d4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 066/106] fix: names of theorems are escaped in clever
 references

---
 plasTeX/Renderers/HTML5/Crossref.jinja2s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Crossref.jinja2s b/plasTeX/Renderers/HTML5/Crossref.jinja2s
index 9c60df7..7ff44cd 100644
--- a/plasTeX/Renderers/HTML5/Crossref.jinja2s
+++ b/plasTeX/Renderers/HTML5/Crossref.jinja2s
@@ -5,7 +5,7 @@ name: eqref
 {% if 'label' in obj.idref and obj.idref.label.ref %}<a href="{{obj.idref.label.url}}" class="eqref">{{obj.idref.label.ref}}</a>{% else %}??{% endif %}
 
 name: cref Cref
-{% if 'label' in obj.idref and obj.idref.label.ref %}<a href="{{obj.idref.label.url}}">{{ obj.refname() }} {{obj.idref.label.ref}}</a>{% else %}??{% endif %}
+{% if 'label' in obj.idref and obj.idref.label.ref %}<a href="{{obj.idref.label.url}}">{{ obj.refname()|e }} {{obj.idref.label.ref}}</a>{% else %}??{% endif %}
 
 name: pageref
 {% if  'label' in obj.idref and obj.idref.label.ref %}<a href="{{ obj.idref.label.url }}">*</a>{% else %}??{% endif %}
-- 
2.43.0


From 704a1b52eac014904655de0c60e2eb0b3539054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 067/106] fix: ties are left to the templates where these are
 used

---
 plasTeX/Base/TeX/Text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Text.py b/plasTeX/Base/TeX/Text.py
index 6991852..c80def9 100644
--- a/plasTeX/Base/TeX/Text.py
+++ b/plasTeX/Base/TeX/Text.py
@@ -140,7 +140,10 @@ class allowbreak(Command):
 
 class ControlSpace(Command):
     macroName = 'active::~'
-    str = '\u00A0'
+
+    @property
+    def textContent(self):
+        return self.ownerDocument.createTextNode('\u00A0')
 
 class slash(Command):
     str = '/'
-- 
2.43.0


From 1ffe2eaebd3e1c2c16498c875e7a91537bf9b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 068/106] fix: file names keep the variables of the request
 when a name is taken, limit words before replacing characters, and give up
 only when no new name is possible

---
 plasTeX/Filenames.py | 153 ++++++++++++++++++++-----------------------
 1 file changed, 70 insertions(+), 83 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..1a221c7 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -75,6 +75,7 @@ class Filenames(object):
         self.files = self.parseFilenames(spec)
         self.charsub = charsub or []
         self.variables = variables or {}
+        self.initial = self.variables.copy()
         self.extension = extension
         self.invalid = invalid or {}
         self.newFilename = self._newFilename()
@@ -127,8 +128,10 @@ class Filenames(object):
         return next(self)
 
     def __next__(self):
-        for name in self.newFilename:
-            return name
+        name = next(self.newFilename)
+        if name is None:
+            raise ValueError('Filename could not be created.')
+        return name
 
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
@@ -137,10 +140,52 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
+    def _candidate(self, item, num):
+        """
+        Expand the variables in the given filename
+
+        Arguments:
+        item -- a parsed filename
+        num -- the current file number
+
+        Returns:
+        tuple of the filename, and whether the file number was used in it
+
+        """
+        numbered = False
+        currentns = {}
+
+        def value(m):
+            nonlocal numbered
+            key, format = m.group(1), m.group(2)
+            # Supply a file number as needed
+            if key == 'num':
+                numbered = True
+                value = ('%%.%sd' % (format or '')) % num
+            else:
+                value = self.variables[key]
+                # Limit other variables to specified number of words
+                if format:
+                    value = ' '.join(value.split()[:int(format)])
+                if self.charsub:
+                    for char in self.charsub[0]:
+                        value = value.replace(char, self.charsub[1])
+            name = '_%d' % len(currentns)
+            currentns[name] = value
+            return '${%s}' % name
+
+        item = re.sub(r'\$\{(\w+)(?:\.(\d+))?}', value, item)
+        # Do variable substitution
+        result = string.Template(item).substitute(currentns)
+        return self.addExtension(result), numbered
+
+    def _reset(self):
+        """ Reset the namespace of variables """
+        self.variables.clear()
+        self.variables.update(self.initial)
+
     def _newFilename(self):
         """ Generator that generates new filenames """
-        g = self.variables.copy()
-
         # Split filenames into static and wildcard groups
         static = []
         wildcard = []
@@ -159,96 +204,38 @@ class Filenames(object):
         # Initialize file number counter
         num = 1
 
-        # Locate all key names and formats in the string
-        keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
-
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
-            for key, format in keysre.findall(item):
-                # Supply a file number as needed
-                if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
-                # Limit other variables to specified number of words
-                elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
             try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                # Do variable substitution
-                result = string.Template(item).substitute(currentns)
-                if 'num' in currentns:
-                    num += 1
-                self.variables.clear()
-                self.variables.update(g)
-                result = self.addExtension(result)
-                if result not in self.invalid:
-                    self.invalid[result] = None
-                    yield result
+                result, numbered = self._candidate(item, num)
             except KeyError:
                 continue
+            if numbered:
+                num += 1
+            if result not in self.invalid:
+                self.invalid[result] = None
+                self._reset()
+                yield result
 
         # We've reached the wildcard stage.  The wildcard gives us
         # multiple alternatives of filenames to choose from.  Keep trying
         # each one with the current namespace until one works.
-        passes = 0
         while 1:
-            passes += 1
+            retry = False
             for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
-                for key, format in keysre.findall(item):
-                    # Supply a file number as needed
-                    if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
-                    # Limit other variables to specified number of words
-                    elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
                 try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                    # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
-                    if 'num' in currentns:
-                        num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
-                    result = self.addExtension(result)
-                    if result not in self.invalid:
-                        self.invalid[result] = None
-                        yield result
-                    else:
-                        continue
-                    break
-                except KeyError as key:
-                    if 'num' in self.variables:
-                        del self.variables['num']
+                    result, numbered = self._candidate(item, num)
+                except KeyError:
                     continue
-            else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
+                if numbered:
+                    num += 1
+                    retry = True
+                if result not in self.invalid:
+                    self.invalid[result] = None
+                    self._reset()
+                    yield result
                     break
-
-        raise ValueError('Filename could not be created.')
+            else:
+                # Only a new file number can make a difference
+                if not retry:
+                    yield None
-- 
2.43.0


From 198e65ff7bf5db1588228b0ebbb7286a1846548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 069/106] fix: \( and \) group in the test of \whiledo, and
 mean mathematics again after an error in a test

---
 plasTeX/Packages/ifthen.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..d2e1d7c 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -4,6 +4,7 @@ A Python implementation of the ifthen package.
 
 """
 
+from contextlib import contextmanager
 from plasTeX import Command, TeXFragment, number
 from plasTeX.Tokenizer import Token, Space
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
@@ -47,6 +48,17 @@ class OR(Command):
     pass
 
 
+@contextmanager
+def grouping():
+    r"""Temporarily disable entering math mode with \( and \)"""
+    before = BeginMath.disableMath, EndMath.disableMath
+    BeginMath.disableMath = EndMath.disableMath = True
+    try:
+        yield
+    finally:
+        BeginMath.disableMath, EndMath.disableMath = before
+
+
 class ifthenelse(Command):
     r"""The \ifthenelse macro.
 
@@ -67,10 +79,8 @@ class ifthenelse(Command):
     args = 'test:XTok then:nox else:nox'
 
     def invoke(self, tex) -> List[Token]:
-        # Temporarily disable entering math mode with \( and \)
-        BeginMath.disableMath = EndMath.disableMath = True
-        a = self.parse(tex)
-        BeginMath.disableMath = EndMath.disableMath = False
+        with grouping():
+            a = self.parse(tex)
         if isinstance(a['test'], TeXFragment):
             test_result = self.evaluate(tex, a['test'])
         else:
@@ -188,7 +198,8 @@ class whiledo(ifthenelse):
         a = self.parse(tex)
         tok: List[Token] = []
         while True:
-            expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            with grouping():
+                expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From 07971fab079f3e9a643af05e6498f4c7222ed53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 070/106] fix: \not may stand before any operand in the tests
 of ifthen

---
 plasTeX/Packages/ifthen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index d2e1d7c..72b39d2 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -90,8 +90,10 @@ class ifthenelse(Command):
     def prec(self, tok: Union[Token, number]) -> int:
         """Return the operator precedence for the given token"""
         if tok in ['>', '<', '=']:
+            return 3
+        if isinstance(tok, (_not, NOT)):
             return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
+        if isinstance(tok, (_and, AND, _or, OR)):
             return 1
         return 0
 
@@ -123,6 +125,9 @@ class ifthenelse(Command):
                         break
                     postfix.append(stack.pop())
                 stack.pop()  # (
+            elif isinstance(tok, (_not, NOT)):
+                # A prefix operator waits for its operand
+                stack.append(tok)
             else:
                 # Handle operators and precedence
                 while stack and self.prec(tok) <= self.prec(stack[-1]):
-- 
2.43.0


From 6282463a20f551b16a8c5cb5e08b6f7e069b1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 071/106] fix: every form of integer may stand in the
 comparisons of ifthen

---
 plasTeX/Packages/ifthen.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 72b39d2..eabb601 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -97,17 +97,27 @@ class ifthenelse(Command):
             return 1
         return 0
 
+    def isOperand(self, tok: Union[Token, number]) -> bool:
+        """Is the given token part of a number?"""
+        if tok.catcode == Token.CC_SPACE or isinstance(tok, _boolToken):
+            return False
+        return not(tok in ['>', '<', '='] or tok.nodeName in ['(', ')'] or
+                   isinstance(tok, (_and, AND, _or, OR, _not, NOT)))
+
     def evaluate(self, tex, test: Union[List[Token], TeXFragment]) -> _boolToken:
         """Reorganise a test expression into postfix and evaluate it."""
         stack: List[Union[Token, number]] = []
         postfix: List[Union[Token, number]] = []
         test_iter = iter(test)
         for tok in test_iter:
-            # Handle literal integers with tex.readNumber
+            # Handle integers with tex.readNumber
             number_tokens: List[Token] = []
-            while tok.catcode == Token.CC_OTHER and (tok not in ['<', '>', '=']):
+            while self.isOperand(tok) or (number_tokens and tok.catcode == Token.CC_SPACE):
                 number_tokens.append(tok)
-                tok = next(test_iter, Space())
+                tok = next(test_iter, None)
+                if tok is None:
+                    tok = Space()
+                    break
             if number_tokens:
                 value: int = tex.readInternalType(number_tokens, tex.readNumber)
                 postfix.append(number(value))
-- 
2.43.0


From 4e399696792a1f4c513427b011533c5dd5597e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 072/106] fix: \boolean{x} is the switch \ifx, so that its name
 does not clash with that of a macro

---
 plasTeX/Packages/ifthen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index eabb601..1757115 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -231,8 +231,9 @@ class boolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
+            if self.ownerDocument.context[name].state:
                 return [_true()]
             else:
                 return [_false()]
@@ -309,7 +310,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -322,10 +323,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From 68348007d4801b0420e22cbe38d15e6ec9df00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 073/106] fix: \number and \romannumeral read a whole number,
 not one token

---
 plasTeX/Base/TeX/Numbers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/TeX/Numbers.py b/plasTeX/Base/TeX/Numbers.py
index 4df7c6b..fb9395f 100644
--- a/plasTeX/Base/TeX/Numbers.py
+++ b/plasTeX/Base/TeX/Numbers.py
@@ -1,14 +1,14 @@
 from plasTeX import Command, numToRoman
 
 class number(Command):
-    args = 'num:number'
+    args = 'num:Number'
     expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(str(a['num']))
 
 class romannumeral(Command):
-    args = 'num:number'
+    args = 'num:Number'
     expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
-- 
2.43.0


From 3de49661d5748858ccfd1984f3e021e58e29ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 074/106] fix: registers may stand in the test of \whiledo

---
 plasTeX/Packages/ifthen.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 1757115..86569bd 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -5,7 +5,7 @@ A Python implementation of the ifthen package.
 """
 
 from contextlib import contextmanager
-from plasTeX import Command, TeXFragment, number
+from plasTeX import Command, ParameterCommand, TeXFragment, number
 from plasTeX.Tokenizer import Token, Space
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
@@ -213,8 +213,13 @@ class whiledo(ifthenelse):
         a = self.parse(tex)
         tok: List[Token] = []
         while True:
-            with grouping():
-                expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            # Registers in the test are read, not set
+            ParameterCommand.disable()
+            try:
+                with grouping():
+                    expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            finally:
+                ParameterCommand.enable()
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From 24233224fe61e34b4276215ba100590d34c5a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 075/106] fix: equal lengths are neither greater nor less than
 each other in \lengthtest

---
 plasTeX/Packages/ifthen.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 86569bd..b78375f 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -284,9 +284,8 @@ class lengthtest(Command):
     """
     Evaluate a length test and return a _boolToken depending on the result
 
-    The < and > relations are implemented directly. However, equals tests if
-    the lengths are just very close. This is to ensure that the result of tests
-    such as "1cm=10mm" match in LaTeX and plasTeX.
+    The lengths are rounded to scaled points first, so that the result of tests
+    such as "1cm=10mm" and "10mm>1cm" match in LaTeX and plasTeX.
 
     The workaround is required because LaTeX dimension calculations are
     internally handled by integer arithmetic rather than floating point
@@ -298,15 +297,15 @@ class lengthtest(Command):
         attr = self.parse(tex)
         test = attr['test']
         tex.pushTokens(test)
-        a = tex.readDimen()
+        a = round(tex.readDimen())
         relation = next(tex.itertokens())
-        b = tex.readDimen()
+        b = round(tex.readDimen())
         if relation == '<':
             return [_true() if a < b else _false()]
         elif relation == '>':
             return [_true() if a > b else _false()]
         elif relation == '=':
-            return [_true() if abs(a - b) < 1e-6 else _false()]
+            return [_true() if a == b else _false()]
         raise ValueError('"%s" is not a valid relation' % relation)
 
 
-- 
2.43.0


From af2a3d62357bf35bb1e96d6bb0031bc1458c302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 076/106] fix: booleans in configuration files are read by
 their meaning, so that no, false and off disable an option

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..602635e 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -47,6 +47,12 @@ class ConfigOption(Generic[T]):
         self.value = self.valueType()(string)
 
 class BooleanOption(ConfigOption[bool]):
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.strip().lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: {}".format(string)) from None
+
     def registerArgparse(self, group: ArgumentGroup):
         enables = [x for x in self.options if x[0] != "!"]
         disables = [x[1:] for x in self.options if x[0] == "!"]
-- 
2.43.0


From 02e808221e2d6aec79a4f1de6d987747c130b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 077/106] fix: keys of dictionary options keep their case when
 read from a configuration file

---
 plasTeX/ConfigManager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 602635e..fe97181 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,9 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # The keys of dictionary options (names of counters, macros,
+            # nodes...) are case-sensitive.
+            data.optionxform = str # type: ignore
             data.read(filename)
 
             for section in data.sections():
@@ -290,8 +293,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key in self[section].data:
-                        self[section].data[key].setFromString(val)
+                    if key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 4e90c2a14009cc864cd8f56e62781339b308750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 078/106] fix: the documented defaults of options agree with
 the actual ones

---
 Doc/command.tex | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..1785112 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -544,7 +544,6 @@ specifies a base URL to prepend to the path of all images.
 \begin{configuration}{\LaTeX\ program to use to compile image document}
 \options{\longprogramopt{image-compiler=\optval{program}}}
 \config{images}{compiler}
-\default{latex}
 specifies which program to use to compile the images \LaTeX\ document. If
 unspecified, the default is specified by the imager. Note that not all imagers
 are compatible with all compilers. Specifically, some imagers need compilers
@@ -554,7 +553,6 @@ that produces pdf's and others need dvi's.
 \begin{configuration}{\LaTeX\ program to use to compile vector image document}
 \options{\longprogramopt{vector-image-compiler=\optval{program}}}
 \config{images}{vector-compiler}
-\default{latex}
 specifies which program to use to compile the vector images \LaTeX\ document. If
 unspecified, this uses the value of \longprogramopt{image-compiler}.
 \end{configuration}
@@ -571,7 +569,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +589,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -734,9 +732,8 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
-specifies where to find the MathJax javascript lib (including the config
-information as in the default value).
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
+specifies where to find the MathJax javascript lib.
 \end{configuration}
 
 \begin{configuration}{Use single dollars as math delimiter for MathJax}
-- 
2.43.0


From 1407be1f907e300147565a61bcf6253d3eca72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 079/106] fix: the Unicode collation is used for sorting the
 index when pyuca is installed

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..96da0bf 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From 9277eb1120ee02985ef20273a82a8432692c2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 080/106] fix: index headings of keys that begin with a
 ligature or with a character that has no transliteration

---
 plasTeX/Base/LaTeX/Index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 96da0bf..aa2f923 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -84,8 +84,8 @@ class IndexUtils(object):
         current = ''
         for item in self:
             try:
-                label = title = unidecode(item.sortkey[0]).upper()
-                if title in encoding.stringletters():
+                label = title = unidecode(item.sortkey[0])[:1].upper()
+                if title and title in encoding.stringletters():
                     pass
                 elif title == '_':
                      title = '_ (Underscore)'
-- 
2.43.0


From 82cfb0310bb059920988f533b065f1114b31b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 081/106] fix: index entries with equal sort keys but different
 displays are merged by path

---
 plasTeX/Base/LaTeX/Index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index aa2f923..19d76ea 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -410,10 +410,10 @@ class IndexEntry(object):
     def __lt__(self, other):
         key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
                             [collator(x.textContent) for x in self.key],
-                            self.key))
+                            self.sortkey, [x.source for x in self.key]))
         key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
                              [collator(x.textContent) for x in other.key],
-                             other.key))
+                             other.sortkey, [x.source for x in other.key]))
         if key_self < key_other:
             return True
         elif key_self > key_other:
-- 
2.43.0


From 6bbf3937b4c712cf32b0f85c5cb05facde063b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 082/106] fix: entries that come after the index are listed in
 it, references of a second index are not doubled, symbols with a
 transliteration are not grouped under letters

---
 plasTeX/Base/LaTeX/Index.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 19d76ea..4169f89 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -84,10 +84,11 @@ class IndexUtils(object):
         current = ''
         for item in self:
             try:
-                label = title = unidecode(item.sortkey[0])[:1].upper()
-                if title and title in encoding.stringletters():
+                initial = item.sortkey[0]
+                label = title = unidecode(initial)[:1].upper()
+                if initial.isalpha() and title and title in encoding.stringletters():
                     pass
-                elif title == '_':
+                elif initial == '_':
                      title = '_ (Underscore)'
                 else:
                      label = title = 'Symbols'
@@ -173,6 +174,14 @@ class IndexUtils(object):
                 self.pop()
         else:
             Command.digest(self, tokens)
+        self.buildIndex()
+        # There may be entries after the index
+        self.ownerDocument.addPostParseCallbacks(10, self.buildIndex)
+
+    def buildIndex(self):
+        """ Create the tree of index entries """
+        while self.childNodes:
+            self.pop()
         doc = self.ownerDocument
         current = self
         entries = sorted(self.ownerDocument.userdata.get('index', []))
@@ -213,7 +222,10 @@ class IndexUtils(object):
 
             # Add the current page and format it
             current.pages.append(IndexDestination(item.type, item.node))
-            if item.format is not None:
+            if item.node.hasChildNodes():
+                # Already formatted for another index
+                pass
+            elif item.format is not None:
                 text = doc.createTextNode(str(len(current.pages)))
                 ipn = item.format.getElementsByTagName('index-page-number')
                 if ipn:
-- 
2.43.0


From 29a4dbbedd2b660a9876f570ea22e2a24cc6c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 083/106] fix: damaged files with label information are
 recognised and replaced, labels that are gone are not saved again,
 \externaldocument takes those of the current renderer

---
 plasTeX/Compile.py     |  2 +-
 plasTeX/Context.py     | 75 +++++++++++++++++++++++++++++-------------
 plasTeX/Packages/xr.py | 17 +++++-----
 3 files changed, 62 insertions(+), 32 deletions(-)

diff --git a/plasTeX/Compile.py b/plasTeX/Compile.py
index a34c8d9..fb28fc8 100644
--- a/plasTeX/Compile.py
+++ b/plasTeX/Compile.py
@@ -76,7 +76,7 @@ def parse(filename: str, config: ConfigManager) -> TeX:
     pauxname = '%s.paux' % jobname
     rname = config['general']['renderer']
     for dirname in [cwd] + config['general']['paux-dirs']:
-        for fname in glob.glob(os.path.join(dirname, '*.paux')):
+        for fname in glob.glob(os.path.join(glob.escape(dirname), '*.paux')):
             if os.path.basename(fname) == pauxname:
                 continue
             document.context.restore(fname, rname)
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index e1dc229..a5a895e 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -2,6 +2,9 @@ import sys
 import os
 import configparser
 import contextlib
+import hashlib
+import io
+import pickle
 import re
 import time
 from pathlib import Path
@@ -83,6 +86,43 @@ class ContextItem(dict):
         return self.name
 
 
+def saveAuxiliary(filename, data):
+    """
+    Write label information of all renderers
+
+    The pickle is followed by a digest, so that damages can be detected.
+
+    """
+    content = pickle.dumps(data)
+    digest = hashlib.sha256(content).hexdigest().encode('ascii')
+    with open(filename, 'wb') as fh:
+        fh.write(content + digest + b'\n')
+
+def loadAuxiliary(filename):
+    """
+    Read label information of all renderers
+
+    Raises an exception if there is no file or if the file is damaged.
+
+    """
+    with open(filename, 'rb') as fh:
+        content = fh.read()
+    # Files of previous versions end with the pickle
+    if not content.endswith(b'.'):
+        content, digest = content[:-65], content[-65:]
+        if digest != hashlib.sha256(content).hexdigest().encode('ascii') + b'\n':
+            raise ValueError('%s is damaged' % filename)
+    stream = io.BytesIO(content)
+    data = pickle.load(stream)
+    if stream.read():
+        raise ValueError('%s is damaged' % filename)
+    if not (isinstance(data, dict) and
+            all(isinstance(x, dict) and all(isinstance(y, dict) for y in x.values())
+                for x in data.values())):
+        raise ValueError('%s has no label information' % filename)
+    return data
+
+
 class Counters(dict):
     def __getitem__(self, name):
         try:
@@ -237,24 +277,15 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
-        if os.path.exists(filename):
-            try:
-                with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
-        else:
-            d = {rtype:{}}
-        data = d[rtype]
-        for key, value in list(self.persistentLabels.items()):
-            data[key] = value.persist()
         try:
-            with open(filename, 'wb') as fh:
-                pickle.dump(d, fh)
+            d = loadAuxiliary(filename)
+        except Exception:
+            # There is no file, or it is not usable
+            d = {}
+        # Labels that have been removed from the document must not survive
+        d[rtype] = {key: value.persist() for key, value in self.persistentLabels.items()}
+        try:
+            saveAuxiliary(filename, d)
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
 
@@ -271,22 +302,20 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
         if not os.path.exists(filename):
             return
+        wou = self.warnOnUnrecognized
         try:
-            d = pickle.load(open(filename, 'rb'))
-            try: data = d[rtype]
-            except KeyError: return
-            wou = self.warnOnUnrecognized
+            data = loadAuxiliary(filename).get(rtype, {})
             self.warnOnUnrecognized = False
             for key, value in list(data.items()):
                 n = self[value.get('macroName', 'Macro')]()
                 n.restore(value)
                 self.labels[key] = n
-            self.warnOnUnrecognized = wou
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+        finally:
+            self.warnOnUnrecognized = wou
 
     @property
     def isMathMode(self):
diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..4519676 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -1,7 +1,7 @@
-import pickle
 import os
 from typing import Dict
 from plasTeX import Command
+from plasTeX.Context import loadAuxiliary
 from plasTeX.Logging import getLogger
 
 log = getLogger()
@@ -11,8 +11,8 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
-    except:
+        data = loadAuxiliary(name)
+    except Exception:
         log.warning('Failed to load {}'.format(name))
         return dict()
     return data
@@ -29,8 +29,9 @@ class externaldocument(Command):
         if url:
             url = url.textContent.rstrip('/') + '/'
         labels = self.ownerDocument.context.labels
-        for block in load_paux(pauxname).values():
-            for lbl, val in block.items():
-                labels[prefix + lbl] = val
-                if url:
-                    labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+        # The information of other renderers does not apply
+        block = load_paux(pauxname).get(self.config['general']['renderer'], {})
+        for lbl, val in block.items():
+            labels[prefix + lbl] = val
+            if url and 'url' in val:
+                val['url'] = url + val['url']
-- 
2.43.0


From 01064f8ec2ce3ef628c3623b86c9c76a8c05647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 084/106] fix: footnotes of the start page are shown by the
 XHTML theme python, and boxes made with \raisebox by HTML5

---
 plasTeX/Renderers/HTML5/Boxes.jinja2s                      | 5 ++++-
 plasTeX/Renderers/XHTML/Themes/python/document-layout.html | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Boxes.jinja2s b/plasTeX/Renderers/HTML5/Boxes.jinja2s
index 74dc6a8..1ad769c 100644
--- a/plasTeX/Renderers/HTML5/Boxes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Boxes.jinja2s
@@ -10,4 +10,7 @@ name: parbox
 name: minipage
 <div class="minipage" style="width: {{ obj.attributes.width }}">{{ obj }}</div>
 
-name: raisebox rule
+name: raisebox
+<span class="raisebox" style="position: relative; bottom: {{ obj.attributes.raise }}">{{ obj }}</span>
+
+name: rule
diff --git a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
index 3b6a02c..0e8ebd3 100644
--- a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
@@ -79,6 +79,13 @@
 </ul>
 </div>
 
+<div id="footnotes" tal:condition="self/footnotes">
+<p><b>Footnotes</b></p>
+<ol>
+<li tal:repeat="footnote self/footnotes" tal:content="footnote" tal:attributes="id footnote/id">footnote text</li>
+</ol>
+</div>
+
 <div class="navigation">
 <div class='online-navigation'>
 <p></p><hr />
-- 
2.43.0


From 630096f43bfca08750d1e6a169c59a05a8160843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 085/106] fix: XHTML shows headings of theorems and proofs and
 gives them an anchor

---
 plasTeX/Renderers/XHTML/Theorems.zpts | 10 ++++++++++
 1 file changed, 10 insertions(+)
 create mode 100644 plasTeX/Renderers/XHTML/Theorems.zpts

diff --git a/plasTeX/Renderers/XHTML/Theorems.zpts b/plasTeX/Renderers/XHTML/Theorems.zpts
new file mode 100644
index 0000000..87d6a08
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Theorems.zpts
@@ -0,0 +1,10 @@
+name: thmenv
+<div tal:attributes="class string:theorem ${self/thmName}; id self/id"><span class="theoremheading"><b><span tal:replace="self/caption">Theorem</span> <span tal:condition="self/ref" tal:replace="self/ref">1</span></b> <span tal:condition="self/title" class="theoremtitle">(<span tal:replace="self/title">title</span>)</span></span>
+<div class="theorembody" tal:content="self">theorem content</div></div>
+
+name: proof
+<div class="proof" tal:attributes="id self/id"><i class="proofheading" tal:content="python:self.caption or self.ownerDocument.context.terms.get('proof', 'Proof')">Proof</i>
+<div class="proofbody" tal:content="self">proof content</div></div>
+
+name: qedhere qed
+<span class="qed">&#9633;</span>
-- 
2.43.0


From c4dd1ff8e8cb2c2e13a783b49f21738e72200d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 086/106] fix: HTML5 drops long tables that have no caption

---
 plasTeX/Renderers/HTML5/longtable.jinja2s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/longtable.jinja2s b/plasTeX/Renderers/HTML5/longtable.jinja2s
index 50c2070..ab0704f 100644
--- a/plasTeX/Renderers/HTML5/longtable.jinja2s
+++ b/plasTeX/Renderers/HTML5/longtable.jinja2s
@@ -1,5 +1,5 @@
 name: longtable
-<div id="{{ obj.title.id }}">
+<div id="{{ obj.title.id if obj.title else obj.id }}">
 {% if obj.title %}
 <div class="caption">
   <span class="table-label">{{ obj.title.title }} {{ obj.title.ref }}</span> 
@@ -16,7 +16,7 @@ name: longtable
   <td style="{{ cell.style.inline}}" rowspan="{{ cell.attributes.rowspan }}" colspan="{{ cell.attributes.colspan }}">{{ cell }}</td>
   {% endif %}
 {% endfor %}
-{% endfor %}
 </tr>
+{% endfor %}
 </table>
 </div>
-- 
2.43.0


From 129d5038ead1e38329d1cbc1e9e9d17b9375182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 087/106] fix: item labels given in itemize and enumerate are
 shown in HTML, and the numbers of items where counting is changed

---
 plasTeX/Renderers/HTML5/Lists.jinja2s | 10 +++++++++-
 plasTeX/Renderers/XHTML/Lists.zpts    | 12 ++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..6f3d5d7 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -1,14 +1,22 @@
 name: itemize
 <ul class="itemize">
 {% for item in obj %}
+  {% if item.attributes.term is not none %}
+  <li style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
+  {% else %}
   <li>{{ item }}</li>
+  {% endif %}
 {% endfor %}
 </ul>
 
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  {% if item.attributes.term is not none %}
+  <li style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
+  {% else %}
+  <li value="{{ item.position }}">{{ item }}</li>
+  {% endif %}
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 11c1d9c..49e09da 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -1,11 +1,19 @@
 name: itemize
+type: xml
 <ul class="itemize">
-<li tal:repeat="item self" tal:content="item"></li>
+<metal:block tal:repeat="item self">
+<li tal:condition="python:item.attributes['term'] is None" tal:content="item"></li>
+<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
+</metal:block>
 </ul>
 
 name: enumerate
+type: xml
 <ol class="enumerate">
-<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position"></li>
+<metal:block tal:repeat="item self">
+<li tal:condition="python:item.attributes['term'] is None" tal:content="item" tal:attributes="value item/position"></li>
+<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
+</metal:block>
 </ol>
 
 name: description
-- 
2.43.0


From 231eff7f20c1cfe85e18113f50d3bfd200766d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 088/106] fix: the text renderer puts the footnotes of a
 section with a file of its own into that file

---
 plasTeX/Renderers/Text/__init__.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Renderers/Text/__init__.py b/plasTeX/Renderers/Text/__init__.py
index fc151f7..e24b29f 100644
--- a/plasTeX/Renderers/Text/__init__.py
+++ b/plasTeX/Renderers/Text/__init__.py
@@ -430,13 +430,21 @@ class TextRenderer(BaseRenderer):
 
     # Sectioning
 
-    def do_document(self, node):
-        content = str(node).rstrip()
-        footnotes = u'\n\n'.join(self.footnotes).rstrip()
+    def withFootnotes(self, node, render):
+        """ Render the content of a file with its footnotes at the end """
+        outer, self.footnotes = self.footnotes, []
+        try:
+            content = render(node).rstrip()
+            footnotes = u'\n\n'.join(self.footnotes).rstrip()
+        finally:
+            self.footnotes = outer
         if footnotes:
             content = u'%s\n\n\n%s' % (content, footnotes)
         return u'%s\n\n' % content
 
+    def do_document(self, node):
+        return self.withFootnotes(node, str)
+
     def do_maketitle(self, node):
         output = []
         metadata = node.ownerDocument.userdata
@@ -460,9 +468,14 @@ class TextRenderer(BaseRenderer):
             output.append(self.center(metadata['thanks']).rstrip())
         return u'\n%s\n\n' % u'\n'.join(output)
 
-    def do_section(self, node):
+    def sectionContent(self, node):
         return u'\n\n\n%s' % (u'%s\n\n%s' % (self.fill(node.fullTitle), node)).strip()
 
+    def do_section(self, node):
+        if node.filename:
+            return self.withFootnotes(node, self.sectionContent)
+        return self.sectionContent(node)
+
     do_part = do_chapter = do_subsection = do_subsubsection = do_section
     do_paragraph = do_subparagraph = do_subsubparagraph = do_section
 
-- 
2.43.0


From 58660669306593c7d5cfdc592da0a062f947ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 089/106] fix: the text renderer shows item labels, and lists
 and footnotes in quotations

---
 plasTeX/Renderers/Text/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Renderers/Text/__init__.py b/plasTeX/Renderers/Text/__init__.py
index e24b29f..f083fd4 100644
--- a/plasTeX/Renderers/Text/__init__.py
+++ b/plasTeX/Renderers/Text/__init__.py
@@ -316,19 +316,21 @@ class TextRenderer(BaseRenderer):
     def do_itemize(self, node):
         output = []
         for item in node:
-            bullet = '   * '
+            term = item.attributes.get('term')
+            bullet = '   * ' if term is None else '   %s ' % term
             bulletlen = len(bullet)
             output.append(self.fill(item, initial_indent=bullet,
-                                        subsequent_indent=' '*bulletlen))
+                                        subsequent_indent=' '*bulletlen) or bullet.rstrip())
         return self.addBlock(u'\n'.join(output))
 
     def do_enumerate(self, node):
         output = []
-        for i, item in enumerate(node):
-            bullet = '   %d. ' % (i+1)
+        for item in node:
+            term = item.attributes.get('term')
+            bullet = '   %d. ' % item.position if term is None else '   %s ' % term
             bulletlen = len(bullet)
             output.append(self.fill(item, initial_indent=bullet,
-                                        subsequent_indent=' '*bulletlen))
+                                        subsequent_indent=' '*bulletlen) or bullet.rstrip())
         return self.addBlock(u'\n'.join(output))
 
     def do_description(self, node):
@@ -337,7 +339,7 @@ class TextRenderer(BaseRenderer):
             bullet = '   %s - ' % item.attributes.get('term','')
             bulletlen = len(bullet)
             output.append(self.fill(item, initial_indent=bullet,
-                                        subsequent_indent='      '))
+                                        subsequent_indent='      ') or bullet.rstrip())
         return self.addBlock(u'\n'.join(output))
 
     do_list = do_trivlist = do_description
@@ -415,11 +417,10 @@ class TextRenderer(BaseRenderer):
 
     def do_quote(self, node):
         backslash = self['\\']
-        self['\\'] = lambda *args: u'\001'
-        res = [x.strip() for x in str(node).split(u'\001')]
+        self['\\'] = lambda *args: u'\002'
         output = []
         for par in [x.strip() for x in str(node).split(u'\n\n')]:
-            for item in [x.strip() for x in par.split(u'\001')]:
+            for item in [x.strip() for x in par.split(u'\002')]:
                 output.append(self.fill(item, initial_indent='   ', subsequent_indent='      '))
             output.append('')
         output.pop()
-- 
2.43.0


From afb6817cf0d1d52344381b00b7de2a6eaf46a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 090/106] fix: the text renderer fails on tables with rows of
 different lengths and repeats the footnotes of tables

---
 plasTeX/Renderers/Text/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/Text/__init__.py b/plasTeX/Renderers/Text/__init__.py
index f083fd4..3bcbed9 100644
--- a/plasTeX/Renderers/Text/__init__.py
+++ b/plasTeX/Renderers/Text/__init__.py
@@ -124,6 +124,7 @@ class TextRenderer(BaseRenderer):
     def do_array(self, node, cellspacing=(2,1), render=str):
         # Render the table cells and get min and max column widths
         colwidths = []
+        footnotes = len(self.footnotes)
         for r, row in enumerate(node):
             for c, cell in enumerate(row):
                 if isinstance(render, str):
@@ -135,12 +136,15 @@ class TextRenderer(BaseRenderer):
                     minlength = min([len(x) for x in s.split() if x.strip()])
                 else:
                     minlength = maxlength = 0
-                if r == 0:
+                if c == len(colwidths):
                     colwidths.append([minlength, maxlength])
                 else:
                     colwidths[c] = [max(minlength, colwidths[c][0]),
                                     max(maxlength, colwidths[c][1])]
 
+        # The cells are rendered again below
+        del self.footnotes[footnotes:]
+
         # Determine best column widths
         maxline = self.lineWidth - len(colwidths)*cellspacing[0]
         minwidths = [x[0] for x in colwidths] # minimums
@@ -159,7 +163,7 @@ class TextRenderer(BaseRenderer):
             # Iteratively subtract one from the longest line until the
             # table will fit within maxline.
             while sum(outwidths) > maxline:
-                index = maxwidths.index(max(maxwidths))
+                i = maxwidths.index(max(maxwidths))
                 maxwidths[i] -= 1
                 outwidths[i] -= 1
                 if maxwidths[i] == minwidths[i]:
@@ -172,7 +176,7 @@ class TextRenderer(BaseRenderer):
             rendered.append(current)
             for c, cell in enumerate(row):
                 origwidth = self.lineWidth
-                self.lineWidth = outwidths[c]
+                self.lineWidth = max(outwidths[c], 1)
                 if isinstance(render, str):
                     s = getattr(cell, render)().split('\n')
                 else:
-- 
2.43.0


From bd3085b7efe90529e571d049a45a48f69e1f89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 091/106] fix: numbers of items are given in HTML5 only where
 counting is changed

---
 plasTeX/Renderers/HTML5/Lists.jinja2s | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f3d5d7..6b908e1 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -10,12 +10,17 @@ name: itemize
 </ul>
 
 name: enumerate
+{% set ns = namespace(number=0) %}
 <ol class="enumerate">
 {% for item in obj %}
+  {% set ns.number = ns.number + 1 %}
   {% if item.attributes.term is not none %}
   <li style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
-  {% else %}
+  {% elif item.position != ns.number %}
+  {% set ns.number = item.position %}
   <li value="{{ item.position }}">{{ item }}</li>
+  {% else %}
+  <li>{{ item }}</li>
   {% endif %}
 {% endfor %}
 </ol>
-- 
2.43.0


From c8e5d07e89b718afd06960833aad2d5662308eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 092/106] fix: the headings of indexes have the identifiers
 that links to them use; see entries of HTML5 indexes are not links to None;
 groups of an index have different identifiers

---
 plasTeX/Base/LaTeX/Index.py           | 4 ++++
 plasTeX/Renderers/HTML5/Index.jinja2s | 6 +++++-
 plasTeX/Renderers/XHTML/Index.zpts    | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 4169f89..b04d62b 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -97,7 +97,11 @@ class IndexUtils(object):
             if current != title:
                 newgroup = self.IndexGroup()
                 newgroup.title = title
+                # Letters of other alphabets can bring a title back
                 newgroup.id = label
+                ids = [x.id for x in batches]
+                while newgroup.id in ids:
+                    newgroup.id += '-'
                 batches.append(newgroup)
                 current = title
             batches[-1].append(item)
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 9a8523a..47ce775 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,6 +1,6 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
@@ -19,7 +19,11 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
+    {% if page.normal %}
     <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    {% else %}
+    <span class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</span>
+    {% endif %}
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/XHTML/Index.zpts b/plasTeX/Renderers/XHTML/Index.zpts
index e3f5efd..5196946 100644
--- a/plasTeX/Renderers/XHTML/Index.zpts
+++ b/plasTeX/Renderers/XHTML/Index.zpts
@@ -1,5 +1,5 @@
 name: theindex printindex
-<h1 tal:content="self/title"></h1>
+<h1 tal:attributes="id self/id" tal:content="self/title"></h1>
 
 <div tal:define="groups self/groups">
 
-- 
2.43.0


From a6e3dd375c8438c7f4ae0519526d715bb57745dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 093/106] fix: references to list items, rows of eqnarrays and
 alignments, further captions of a float and listings find an anchor

---
 plasTeX/Packages/listings.py             |  4 ++--
 plasTeX/Renderers/HTML5/Floats.jinja2s   |  2 +-
 plasTeX/Renderers/HTML5/Lists.jinja2s    | 12 ++++++------
 plasTeX/Renderers/HTML5/Math.jinja2s     |  1 +
 plasTeX/Renderers/HTML5/listings.jinja2s |  2 +-
 plasTeX/Renderers/HTML5/wrapfig.jinja2s  |  2 +-
 plasTeX/Renderers/XHTML/Floats.zpts      |  2 +-
 plasTeX/Renderers/XHTML/Lists.zpts       | 12 ++++++------
 plasTeX/Renderers/XHTML/listings.zpts    |  2 +-
 plasTeX/__init__.py                      | 10 ++++++++++
 10 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/plasTeX/Packages/listings.py b/plasTeX/Packages/listings.py
index 8ab0f7f..570d7b0 100644
--- a/plasTeX/Packages/listings.py
+++ b/plasTeX/Packages/listings.py
@@ -204,9 +204,9 @@ def _format(self, file, wrap: bool, language:Optional[str] = None) -> None:
     label = arguments.get('label')
     if label:
         if hasattr(label, 'textContent'):
-            doc.context.label(label.textContent)
+            doc.context.label(label.textContent, self)
         else:
-            doc.context.label(label)
+            doc.context.label(label, self)
 
     # Check the textual LaTeX arguments and convert them to Python
     # attributes.
diff --git a/plasTeX/Renderers/HTML5/Floats.jinja2s b/plasTeX/Renderers/HTML5/Floats.jinja2s
index 6652fbc..5e73603 100644
--- a/plasTeX/Renderers/HTML5/Floats.jinja2s
+++ b/plasTeX/Renderers/HTML5/Floats.jinja2s
@@ -12,7 +12,7 @@ name: marginpar
 <p class="marginpar">{{ obj.attributes.right }}</p>
 
 name: caption caption*
-<figcaption>
+<figcaption{% if obj.labelid and not obj.attached %} id="{{ obj.labelid }}"{% endif %}>
   {% if obj.title %}<span class="caption_title">{{ obj.title }}</span>{% endif %}
   {% if obj.ref %}<span class="caption_ref">{{ obj.ref }}</span>{% endif %}
   <span class="caption_text">{{ obj }}</span> 
diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6b908e1..e975d28 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -2,9 +2,9 @@ name: itemize
 <ul class="itemize">
 {% for item in obj %}
   {% if item.attributes.term is not none %}
-  <li style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %} style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
   {% else %}
-  <li>{{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item }}</li>
   {% endif %}
 {% endfor %}
 </ul>
@@ -15,12 +15,12 @@ name: enumerate
 {% for item in obj %}
   {% set ns.number = ns.number + 1 %}
   {% if item.attributes.term is not none %}
-  <li style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %} style="list-style-type: none"><span class="item-label">{{ item.attributes.term }}</span> {{ item }}</li>
   {% elif item.position != ns.number %}
   {% set ns.number = item.position %}
-  <li value="{{ item.position }}">{{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %} value="{{ item.position }}">{{ item }}</li>
   {% else %}
-  <li>{{ item }}</li>
+  <li{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item }}</li>
   {% endif %}
 {% endfor %}
 </ol>
@@ -28,7 +28,7 @@ name: enumerate
 name: list trivlist description
 <dl class="{{ obj.nodeName }}">
 {% for item in obj %}
-  <dt>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
+  <dt{% if item.labelid %} id="{{ item.labelid }}"{% endif %}>{{ item.attributes.term or obj.attributes.defaultlabel }}</dt>
   <dd>{{ item }}</dd>
 {% endfor %}
 </dl>
diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..fe3547f 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -6,6 +6,7 @@ name: ensuremath
 
 name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
 <div class="displaymath" id="{{ obj.id }}">
+  {% for row in obj if row.labelid %}<span id="{{ row.labelid }}"></span>{% endfor %}
   {{ obj.mathjax_source }}
 </div>
 
diff --git a/plasTeX/Renderers/HTML5/listings.jinja2s b/plasTeX/Renderers/HTML5/listings.jinja2s
index 629f117..c0d0028 100644
--- a/plasTeX/Renderers/HTML5/listings.jinja2s
+++ b/plasTeX/Renderers/HTML5/listings.jinja2s
@@ -2,7 +2,7 @@ name:lstset
 
 name:lstinputlisting lstlisting
 {% if obj.attributes.arguments.caption %}
-<div class="caption" id="{{ obj.attributes.arguments.label }}">
+<div class="caption" id="{{ obj.id }}">
   <b>{{ obj.captionName }} {{ obj.ref }}</b>: 
   {{ obj.attributes.arguments.caption }}
 </div>
diff --git a/plasTeX/Renderers/HTML5/wrapfig.jinja2s b/plasTeX/Renderers/HTML5/wrapfig.jinja2s
index fbdaf85..aa6a59a 100755
--- a/plasTeX/Renderers/HTML5/wrapfig.jinja2s
+++ b/plasTeX/Renderers/HTML5/wrapfig.jinja2s
@@ -1,2 +1,2 @@
 name: wrapfigure wraptable
-<div style="float: {{ obj.float }}">>{{ obj }}</div>
+<div style="float: {{ obj.float }}">{{ obj }}</div>
diff --git a/plasTeX/Renderers/XHTML/Floats.zpts b/plasTeX/Renderers/XHTML/Floats.zpts
index 02aae16..88cf6a9 100644
--- a/plasTeX/Renderers/XHTML/Floats.zpts
+++ b/plasTeX/Renderers/XHTML/Floats.zpts
@@ -10,4 +10,4 @@ name: marginpar
 <p class="marginpar" tal:content="self/attributes/right">margin par</p>
 
 name: caption
-<div class="caption"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
+<div class="caption" tal:attributes="id python:None if self.attached else self.labelid"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 49e09da..ad802ea 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -2,8 +2,8 @@ name: itemize
 type: xml
 <ul class="itemize">
 <metal:block tal:repeat="item self">
-<li tal:condition="python:item.attributes['term'] is None" tal:content="item"></li>
-<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
+<li tal:condition="python:item.attributes['term'] is None" tal:content="item" tal:attributes="id item/labelid"></li>
+<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none" tal:attributes="id item/labelid"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
 </metal:block>
 </ul>
 
@@ -11,8 +11,8 @@ name: enumerate
 type: xml
 <ol class="enumerate">
 <metal:block tal:repeat="item self">
-<li tal:condition="python:item.attributes['term'] is None" tal:content="item" tal:attributes="value item/position"></li>
-<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
+<li tal:condition="python:item.attributes['term'] is None" tal:content="item" tal:attributes="id item/labelid; value item/position"></li>
+<li tal:condition="python:item.attributes['term'] is not None" style="list-style-type: none" tal:attributes="id item/labelid"><span class="itemlabel" tal:content="item/attributes/term"></span> <metal:block tal:replace="item"></metal:block></li>
 </metal:block>
 </ol>
 
@@ -20,7 +20,7 @@ name: description
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:attributes="id item/labelid" tal:content="item/attributes/term"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
@@ -37,7 +37,7 @@ name: list
 type: xml
 <dl class="description">
 <metal:block tal:repeat="item self">
-    <dt tal:content="item/attributes/term"></dt>
+    <dt tal:attributes="id item/labelid" tal:content="item/attributes/term"></dt>
     <dd tal:content="item"></dd>
 </metal:block>
 </dl>
diff --git a/plasTeX/Renderers/XHTML/listings.zpts b/plasTeX/Renderers/XHTML/listings.zpts
index 4f38806..5db7109 100644
--- a/plasTeX/Renderers/XHTML/listings.zpts
+++ b/plasTeX/Renderers/XHTML/listings.zpts
@@ -1,7 +1,7 @@
 name:lstset
 
 name:lstinputlisting lstlisting
-<div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/attributes/arguments/label'>
+<div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/id'>
   <b tal:content='string:${self/captionName} ${self/ref}'></b>: 
   <span tal:replace='self/attributes/arguments/caption'></span>
 </div>
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 5eb63a9..09f334d 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -349,6 +349,16 @@ class Macro(Element):
         else:
             delattr(self, '@id')
 
+    # True for the stand-ins for undefined labels
+    unresolved = False
+
+    @property
+    def labelid(self):
+        """ The ID if it was given by a label, None if it is generated """
+        if getattr(self, '@hasgenid', None) is not None:
+            return None
+        return getattr(self, '@id', None)
+
     def expand(self, tex):
         """ Fully expand the macro """
         result = self.invoke(tex)
-- 
2.43.0


From 6cbbe20b6dc4d3c295adbab42e525827b6258faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 094/106] fix: footnote marks link to their own text, texts
 without a mark do not end the run

---
 plasTeX/Base/LaTeX/Footnotes.py           | 6 +++++-
 plasTeX/Renderers/HTML5/Footnotes.jinja2s | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Footnotes.py b/plasTeX/Base/LaTeX/Footnotes.py
index 7ef98b3..44dd82f 100644
--- a/plasTeX/Base/LaTeX/Footnotes.py
+++ b/plasTeX/Base/LaTeX/Footnotes.py
@@ -23,6 +23,7 @@ class footnote(Command):
 class footnotemark(Command):
     args = '[ num:int ]'
     mark = None
+    footnotetext = None
 
     def invoke(self, tex):
         # Add the footnotemarks to the document
@@ -40,7 +41,10 @@ class footnotetext(footnote):
     
     def invoke(self, tex):
         output = footnote.invoke(self, tex)
-        self.mark = self.ownerDocument.userdata.get('footnotemarks',[None]).pop(0)
+        marks = self.ownerDocument.userdata.get('footnotemarks')
+        if marks:
+            self.mark = marks.pop(0)
+            self.mark.footnotetext = self
         return output
 
 #
diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index ebb237e..30aa97b 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -4,7 +4,7 @@ name: footnote
 </a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes">
+<a class="footnote" href="{% if obj.footnotetext %}{{ obj.footnotetext.url }}{% else %}#footnotes{% endif %}">
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
 
-- 
2.43.0


From f38a6cb2b3ebbc59d796ce076012d6c0149b48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 095/106] fix: wraptable captions count tables

---
 plasTeX/Packages/wrapfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/wrapfig.py b/plasTeX/Packages/wrapfig.py
index da8c184..fa9a76a 100644
--- a/plasTeX/Packages/wrapfig.py
+++ b/plasTeX/Packages/wrapfig.py
@@ -16,4 +16,5 @@ class wrapfigure(Environment):
         counter = 'figure'
 
 class wraptable(wrapfigure):
-    pass
\ No newline at end of file
+    class caption(Caption):
+        counter = 'table'
-- 
2.43.0


From 7b28948b23c72c7e1b17683ad23e51655016dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 096/106] fix: references to undefined labels are not links to
 nowhere; templates for nameref in HTML5, eqref and cref in XHTML

---
 plasTeX/Context.py                       |  1 +
 plasTeX/Renderers/HTML5/hyperref.jinja2s |  6 +++---
 plasTeX/Renderers/HTML5/nameref.jinja2s  |  2 ++
 plasTeX/Renderers/HTML5/subfig.jinja2s   |  2 +-
 plasTeX/Renderers/XHTML/Crossref.zpts    | 10 ++++++++--
 plasTeX/Renderers/XHTML/hyperref.zpts    |  6 +++---
 plasTeX/Renderers/XHTML/nameref.zpts     |  4 ++--
 plasTeX/Renderers/XHTML/subfig.zpts      |  4 ++--
 8 files changed, 22 insertions(+), 13 deletions(-)
 create mode 100644 plasTeX/Renderers/HTML5/nameref.jinja2s

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a5a895e..ee373da 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -664,6 +664,7 @@ class Context(object):
         # Make a fake node with the ID on it for now
         node = self['Macro']()
         node.id = label
+        node.unresolved = True
         obj.idref[name] = node
 
     def __getitem__(self, key):
diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..fc71e51 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -16,10 +16,10 @@ name: hyperdef
 <a name="{{ obj.attributes.category }}.{{ obj.attributes.name }}" >{{ obj }}</a>
 
 name: hyperref
-<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>
+{% if not obj.idref or not obj.idref.label.unresolved %}<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>{% else %}{{ obj }}{% endif %}
 
 name: hyperlink
-<a href="{{ obj.idref.label.url }}" >{{ obj }}</a>
+{% if not obj.idref.label.unresolved %}<a href="{{ obj.idref.label.url }}" >{{ obj }}</a>{% else %}{{ obj }}{% endif %}
 
 name: hypertarget
 <a name="{{ obj.id }}" >{{ obj }}</a>
@@ -31,7 +31,7 @@ name: texorpdfstring
 {{ obj.attributes['tex'] }}
 
 name: autoref
-<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>
+{% if not obj.idref.label.unresolved %}<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>{% else %}??{% endif %}
 
 name: Form
 <form action="{{ obj.attributes.parameters.action }}" method="{{ obj.attributes.parameters.method }}" >{{ obj }}</form>
diff --git a/plasTeX/Renderers/HTML5/nameref.jinja2s b/plasTeX/Renderers/HTML5/nameref.jinja2s
new file mode 100644
index 0000000..1b0c8d7
--- /dev/null
+++ b/plasTeX/Renderers/HTML5/nameref.jinja2s
@@ -0,0 +1,2 @@
+name: nameref Nameref
+{% if not obj.idref.label.unresolved %}<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.title }}</a>{% else %}??{% endif %}
diff --git a/plasTeX/Renderers/HTML5/subfig.jinja2s b/plasTeX/Renderers/HTML5/subfig.jinja2s
index 714122d..2f6d2b3 100644
--- a/plasTeX/Renderers/HTML5/subfig.jinja2s
+++ b/plasTeX/Renderers/HTML5/subfig.jinja2s
@@ -14,6 +14,6 @@ name: subfloat subfig subfigure subtable
 </figure>
 
 name: subref subref*
-<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.subref }}</a>
+{% if not obj.idref.label.unresolved %}<a href="{{ obj.idref.label.url }}">{{ obj.idref.label.subref }}</a>{% else %}??{% endif %}
 
 name: newsubfloat DeclareCaptionListOfFormat listsubcaptions captionsetup clearcaptionsetup ContinuedFloat
diff --git a/plasTeX/Renderers/XHTML/Crossref.zpts b/plasTeX/Renderers/XHTML/Crossref.zpts
index 5c33855..b4d7298 100644
--- a/plasTeX/Renderers/XHTML/Crossref.zpts
+++ b/plasTeX/Renderers/XHTML/Crossref.zpts
@@ -1,7 +1,13 @@
 name: ref
-<a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
 
 name: pageref
-<a tal:attributes="href self/idref/label/url">*</a>
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url">*</a>
+
+name: eqref
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" class="eqref" tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
+
+name: cref Cref
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="string:${self/refname} ${self/idref/label/ref}">Figure #.#.#</a>
 
 name: label
diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index b85dad5..691fb42 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -19,10 +19,10 @@ name: -hyperref
 <a tal:attributes="href string:${self/attributes/url/textContent}#${self/attributes/category}.${self/attributes/name}" tal:content="self">link text</a>
 
 name: hyperref
-<a tal:attributes="href self/idref/label/url" tal:content="self">link text</a>
+<a tal:omit-tag="self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="self">link text</a>
 
 name: hyperlink
-<a tal:attributes="href string:${self/idref/label/url}" tal:content="self">text</a>
+<a tal:omit-tag="self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="self">text</a>
 
 name: hypertarget
 <a tal:attributes="name self/id" tal:content="self">text</a>
@@ -31,7 +31,7 @@ name: phantomsection
 <a tal:attributes="name self/id"></a>
 
 name: autoref
-<a tal:attributes="href self/idref/label/url" tal:content="string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
 
 name: Form
 <form tal:attributes="action self/attributes/parameters/action; 
diff --git a/plasTeX/Renderers/XHTML/nameref.zpts b/plasTeX/Renderers/XHTML/nameref.zpts
index 49467dc..ff775c1 100644
--- a/plasTeX/Renderers/XHTML/nameref.zpts
+++ b/plasTeX/Renderers/XHTML/nameref.zpts
@@ -1,3 +1,3 @@
 name: Nameref nameref
-<a tal:condition="self/idref/label" tal:attributes="href string:${self/idref/label/url}" tal:content="self/idref/label/title">text</a>
-<a tal:condition="not:self/idref/label" tal:attributes="href string:#${self/attributes/label}">Unknown Section</a>
+<a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="self/idref/label/title">text</a>
+<span tal:condition="self/idref/label/unresolved">Unknown Section</span>
diff --git a/plasTeX/Renderers/XHTML/subfig.zpts b/plasTeX/Renderers/XHTML/subfig.zpts
index 0abfd40..9ac3b68 100644
--- a/plasTeX/Renderers/XHTML/subfig.zpts
+++ b/plasTeX/Renderers/XHTML/subfig.zpts
@@ -5,10 +5,10 @@ name: subfloat subfig
 </table>
 
 name: subref
-<a tal:attributes="href self/idref/label/url" tal:content="string:(${self/idref/label/subref})">#.#.#</a>
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="string:(${self/idref/label/subref})">#.#.#</a>
 
 name: subref*
-<a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/subref">#.#.#</a>
+<span tal:condition="self/idref/label/unresolved" tal:replace="string:??">??</span><a tal:condition="not:self/idref/label/unresolved" tal:attributes="href self/idref/label/url" tal:content="self/idref/label/subref">#.#.#</a>
 
 name: newsubfloat DeclareCaptionListOfFormat listsubcaptions \
       captionsetup clearcaptionsetup ContinuedFloat
-- 
2.43.0


From d4f95c869a9ef06b19eeb51774b1018a7fc4cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 097/106] fix: multline environments have one number, and a
 template in XHTML

---
 plasTeX/Packages/amsmath.py       | 4 +++-
 plasTeX/Renderers/XHTML/Math.zpts | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 8c7709f..546d6be 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -37,7 +37,9 @@ class FAlignStar(_AMSEquationStar):
     macroName = 'falign*'
 
 class multiline(_AMSEquation):
-    pass
+    # One number for all lines
+    class EndRow(_AMSEquation.EndRow):
+        counter = None
 
 class MultilineStar(_AMSEquationStar):
     macroName = 'multiline*'
diff --git a/plasTeX/Renderers/XHTML/Math.zpts b/plasTeX/Renderers/XHTML/Math.zpts
index c3e4fe4..fc3c268 100644
--- a/plasTeX/Renderers/XHTML/Math.zpts
+++ b/plasTeX/Renderers/XHTML/Math.zpts
@@ -26,6 +26,7 @@ name: displaymath equation equation*
 </table>
 
 name: eqnarray eqnarray* align align* gather gather* falign falign* \
+      flalign flalign* multline multline* \
       multiline multiline* alignat alignat* split
 type: xml
 <table class="eqnarray" cellspacing="0" cellpadding="7" width="100%"
-- 
2.43.0


From 236b51ebb283e3d9242da33d9ceb9863ee670bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 098/106] fix: longtable captions stay connected to the
 document

---
 plasTeX/Packages/longtable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/longtable.py b/plasTeX/Packages/longtable.py
index d335c16..7edb793 100644
--- a/plasTeX/Packages/longtable.py
+++ b/plasTeX/Packages/longtable.py
@@ -135,7 +135,10 @@ class longtable(tabular):
            elif getattr(row, 'isKillRow', None):
                removeRows.insert(0,i)
         for i in removeRows:
-            self.pop(i)
+            row = self.pop(i)
+            # The caption still belongs to this place in the document
+            if getattr(row, 'isCaptionRow', None):
+                row.parentNode = self
 
 class LongTableStar(longtable):
     macroName = 'longtable*'
-- 
2.43.0


From 509dbe1525582747322d97fa08bc40cb5656bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 099/106] fix: footnote marks link to their own text in XHTML

---
 plasTeX/Renderers/XHTML/Footnotes.zpts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/XHTML/Footnotes.zpts b/plasTeX/Renderers/XHTML/Footnotes.zpts
index f956326..09c183e 100644
--- a/plasTeX/Renderers/XHTML/Footnotes.zpts
+++ b/plasTeX/Renderers/XHTML/Footnotes.zpts
@@ -2,6 +2,6 @@ name: footnote
 <a class="footnote" tal:attributes="href string:#${self/id}"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
+<a class="footnote" tal:attributes="href python:self.footnotetext.url if self.footnotetext else '#footnotes'"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
 
 name: footnotetext
-- 
2.43.0


From c330acfc5ad36d6ef55c8dccf7653c516c0d56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 100/106] fix: footnote marks in HTML5 link to the page of
 their text

---
 plasTeX/Renderers/HTML5/Footnotes.jinja2s | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index 30aa97b..5802d18 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -4,8 +4,13 @@ name: footnote
 </a>
 
 name: footnotemark
-<a class="footnote" href="{% if obj.footnotetext %}{{ obj.footnotetext.url }}{% else %}#footnotes{% endif %}">
+{% if not obj.footnotetext %}
+<sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
+{% else %}
+{% set page = obj.footnotetext.url.split('#')[0] %}
+<a class="footnote" href="{% if page != obj.url.split('#')[0] %}{{ page }}{% endif %}#footnotes">
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
+{% endif %}
 
 name: footnotetext
-- 
2.43.0


From 2a931c25e1a6fc8c8e0bd946cdb365c93c6f67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 101/106] fix: footnote marks in HTML5 link to the page of
 their text, see entries of the index are as before but for the link

---
 plasTeX/Renderers/HTML5/Footnotes.jinja2s | 10 +++++-----
 plasTeX/Renderers/HTML5/Index.jinja2s     |  6 +-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index 5802d18..3e750e7 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -4,13 +4,13 @@ name: footnote
 </a>
 
 name: footnotemark
-{% if not obj.footnotetext %}
-<sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
-{% else %}
-{% set page = obj.footnotetext.url.split('#')[0] %}
+{% if obj.footnotetext -%}
+{% set page = obj.footnotetext.url.split('#')[0] -%}
 <a class="footnote" href="{% if page != obj.url.split('#')[0] %}{{ page }}{% endif %}#footnotes">
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
-{% endif %}
+{%- else -%}
+<sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
+{%- endif %}
 
 name: footnotetext
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 47ce775..5325a55 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,11 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    {% if page.normal %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
-    {% else %}
-    <span class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</span>
-    {% endif %}
+    <a{% if page.normal %} href="{{ page.url }}"{% endif %} title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
-- 
2.43.0


From 8c03d7ae059e8ae1dfb81a13efed964208036323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 102/106] fix: the identifiers of documents with footnote marks
 are as before

---
 plasTeX/Renderers/HTML5/Footnotes.jinja2s | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index 3e750e7..9379ffd 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -5,8 +5,7 @@ name: footnote
 
 name: footnotemark
 {% if obj.footnotetext -%}
-{% set page = obj.footnotetext.url.split('#')[0] -%}
-<a class="footnote" href="{% if page != obj.url.split('#')[0] %}{{ page }}{% endif %}#footnotes">
+<a class="footnote" href="{% if obj.footnotetext.currentSection is not sameas obj.currentSection %}{{ obj.footnotetext.url.split('#')[0] }}{% endif %}#footnotes">
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
 {%- else -%}
-- 
2.43.0


From 6c205fe407f0a841001ff6af79c1257eeed5674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 103/106] fix: the end marker of column specifications is not
 the shared class itself

---
 plasTeX/Base/LaTeX/Arrays.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 9113a39..ec198a0 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -532,11 +532,13 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        # Marks the end of the colspec in the token stream
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0


From 1a64d1a0a1d1090bdab2ffe914d38e69963eb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 104/106] fix: a missing number at the end of the input is read
 as zero

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 26e1ea0..dab0869 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1707,7 +1707,7 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
-        num = None
+        num = t = None
         sign = self.readOptionalSigns()
 
         for t in self:
-- 
2.43.0


From da264b0171252e500d520d34e2adb895eb37a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 105/106] fix: importing verse, hyperref, beamer or cleveref
 does not change macros of other documents

---
 plasTeX/Packages/beamer.py   | 138 +++++++++++++++++++++++++++--------
 plasTeX/Packages/cleveref.py |   2 +
 plasTeX/Packages/hyperref.py |   7 +-
 plasTeX/Packages/verse.py    |   3 +-
 4 files changed, 115 insertions(+), 35 deletions(-)

diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..d6439b6 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -2,7 +2,8 @@ from plasTeX import Command, Environment
 from plasTeX.Base import textbf, textit, textsl, textrm, textsf
 from plasTeX.Base import List, label, newcommand, newenvironment
 from plasTeX.Base import renewcommand, renewenvironment
-from plasTeX.Base import itemize, enumerate_, description
+from plasTeX.Base import itemize, enumerate_, description, trivlist
+from plasTeX.Base.LaTeX.Lists import ConfigurableList
 from plasTeX.Base import part, section, subsection, subsubsection
 from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
@@ -138,37 +139,110 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
+# The macros below take overlay specifications.  These are subclasses because
+# the original classes are shared with documents that don't use beamer.
+
+class itemize(itemize): # type: ignore
+    args = '[ overlay ]'
+
+    class item(List.item):
+        args = '< alert >' + List.item.args + '< alert2 >'
+
+class enumerate_(enumerate_): # type: ignore
+    args = '[ overlay ] [ template ]'
+    item = itemize.item
+
+class description(description): # type: ignore
+    args = '[ overlay ] [ longtext ]'
+    item = itemize.item
+
+class trivlist(trivlist): # type: ignore
+    item = itemize.item
+
+class ConfigurableList(ConfigurableList): # type: ignore
+    item = itemize.item
+
+class thebibliography(thebibliography): # type: ignore
+    class bibitem(thebibliography.bibitem):
+        args = '< overlay >' + thebibliography.bibitem.args
+
+class textbf(textbf): # type: ignore
+    args = '< overlay >' + textbf.args
+
+class textit(textit): # type: ignore
+    args = '< overlay >' + textit.args
+
+class textsl(textsl): # type: ignore
+    args = '< overlay >' + textsl.args
+
+class textrm(textrm): # type: ignore
+    args = '< overlay >' + textrm.args
+
+class textsf(textsf): # type: ignore
+    args = '< overlay >' + textsf.args
+
+class color(color): # type: ignore
+    args = '< overlay >' + color.args
+
+class label(label): # type: ignore
+    args = '< overlay >' + label.args
+
+class includegraphics(includegraphics): # type: ignore
+    args = '< overlay >' + includegraphics.args
+
+class newcommand(newcommand): # type: ignore
+    args = '< overlay >' + newcommand.args
+
+class renewcommand(renewcommand): # type: ignore
+    args = '< overlay >' + renewcommand.args
+
+class newenvironment(newenvironment): # type: ignore
+    args = '< overlay >' + newenvironment.args
+
+class renewenvironment(renewenvironment): # type: ignore
+    args = '< overlay >' + renewenvironment.args
+
+class section(section): # type: ignore
+    args = '< overlay >' + section.args
+
+class subsection(subsection): # type: ignore
+    args = '< overlay >' + subsection.args
+
+class subsubsection(subsubsection): # type: ignore
+    args = '< overlay >' + subsubsection.args
+
+class part(part): # type: ignore
+    args = '< overlay >' + part.args
+
+class appendix(appendix): # type: ignore
+    args = '< overlay >' + appendix.args
+
+class hypertarget(hypertarget): # type: ignore
+    args = '< overlay >' + hypertarget.args
+
+class abstract(abstract): # type: ignore
+    args = '< overlay >' + abstract.args
+
+class verse(verse): # type: ignore
+    args = '< overlay >' + verse.args
+
+class quotation(quotation): # type: ignore
+    args = '< overlay >' + quotation.args
+
+class quote(quote): # type: ignore
+    args = '< overlay >' + quote.args
+
+class hyperlink(hyperlink): # type: ignore
+    args = '< overlay >' + hyperlink.args + '< overlay2 >'
+
+class tableofcontents(tableofcontents): # type: ignore
+    args = '[ options:dict ]' + tableofcontents.args
+
+class footnote(footnote): # type: ignore
+    args = '< overlay > [ options:dict ] self' # modify options int -> dict
+
+class footnotetext(footnotetext): # type: ignore
+    args = '< overlay > [ options:dict ] self' # modify options int -> dict
 
 class resetcounteronoverlays(Command):
     args = 'counter'
diff --git a/plasTeX/Packages/cleveref.py b/plasTeX/Packages/cleveref.py
index 9873014..4fb86c9 100644
--- a/plasTeX/Packages/cleveref.py
+++ b/plasTeX/Packages/cleveref.py
@@ -6,6 +6,8 @@ from plasTeX.DOM import Node
 from typing import Union, Tuple
 
 class CleverRef(ref):
+    args = '* label:idref'
+
     def refname_raw(self) -> Union[str, Tuple[str, str]]:
         """
         The type of the object being referenced.
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..42e8404 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -21,8 +21,11 @@ def addBaseURL(self, urlarg):
 
 # Basic macros
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+class ref(ref): # type: ignore
+    args = '* label:idref'
+
+class pageref(pageref): # type: ignore
+    args = '* label:idref'
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..105f9ae 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,6 +1,7 @@
 from plasTeX.Base.LaTeX.Quotations import verse
 
-verse.args = '[ width:nox ]'
+class verse(verse): # type: ignore
+    args = '[ width:nox ]'
 
 class altverse(verse):
     pass
-- 
2.43.0


From f306308bdab7631f11346b042d3cc21e8dd2ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 106/106] fix: registers, class settings and open math belong
 to the document that changed them

---
 plasTeX/Base/TeX/Primitives.py |  8 +++----
 plasTeX/Context.py             | 43 +++++++++++++++++++++++++++++++---
 plasTeX/Packages/article.py    | 14 +++++------
 plasTeX/Packages/natbib.py     |  2 +-
 plasTeX/Packages/report.py     |  2 +-
 plasTeX/__init__.py            | 24 ++++++++++++-------
 6 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index b5e3fe8..79ffe96 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -47,9 +47,10 @@ class BoxCommand(Command):
     args = 'self'
     mathMode = False
     def parse(self, tex):
-        MathShift.inEnv.append(None)
+        inEnv = self.ownerDocument.context.mathShifts
+        inEnv.append(None)
         Command.parse(self, tex)
-        MathShift.inEnv.pop()
+        inEnv.pop()
         return self.attributes
 
 class hbox(BoxCommand): pass
@@ -65,7 +66,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -74,7 +74,7 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
         for t in tex.itertokens():
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index ee373da..9669b9b 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -8,7 +8,7 @@ import pickle
 import re
 import time
 from pathlib import Path
-from typing import Optional, Dict, List
+from typing import Any, Optional, Dict, List
 from importlib import import_module
 from importlib.util import find_spec
 
@@ -228,6 +228,12 @@ class Context(object):
         # Output files
         self.writes = {}
 
+        # Macro classes that were replaced by our own
+        self.owned = {} # type: Dict[type, type]
+
+        # Math environments that were begun by $ or $$
+        self.mathShifts = [] # type: List[Any]
+
         # Depth of the context stack
         self.depth = 0
 
@@ -341,7 +347,7 @@ class Context(object):
         """
 
         if not self.languages:
-            files = document.config['document']['lang-terms']
+            files = list(document.config['document']['lang-terms'])
             files.append(os.path.join(os.path.dirname(__file__), 'i18n.xml'))
 
             LanguageParser(self.languages).parse(reversed(files))
@@ -769,7 +775,8 @@ class Context(object):
 #           if obj.categories is not None:
 #               newcontext.categories = obj.categories
 
-            newcontext.update(obj.locals())
+            for key, value in obj.locals().items():
+                newcontext[key] = self.owned.get(value, value) if isinstance(value, type) else value
 
         return newcontext
 
@@ -783,10 +790,40 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
+                if isinstance(value, type):
+                    value = self.owned.get(value, value)
                 self[macroName(value)] = value
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
+    def own(self, macro):
+        """
+        Get the class of a macro for this document only
+
+        Macro classes are shared by all documents of the interpreter.
+        A class with settings that depend on the document is replaced by
+        a subclass first, wherever it is used in this context.
+
+        Required Arguments:
+        macro -- name or class of the macro
+
+        Returns: class that can be changed
+
+        """
+        if isinstance(macro, str):
+            macro = self[macro]
+        if not isinstance(macro, type) or vars(macro).get('@owner') is self:
+            return macro
+        if macro in self.owned:
+            return self.owned[macro]
+        new = type(macro.__name__, (macro,), {'@owner': self, '__module__': macro.__module__, '__qualname__': macro.__qualname__, '__doc__': macro.__doc__})
+        self.owned[macro] = new
+        for context in self.contexts:
+            for key, value in context.items():
+                if value is macro:
+                    context[key] = new
+        return new
+
     def pop(self, obj=None):
         """
         Remove a context from the stack
diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..23654f9 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -4,13 +4,13 @@ from plasTeX.Packages import report
 
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
-    document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    document.context.own('thesection').format = '${section}'
+    document.context.own('theindex').counter = 'section'
+    document.context.own('theindex').level = Environment.SECTION_LEVEL
+    document.context.own('printindex').counter = 'section'
+    document.context.own('printindex').level = Command.SECTION_LEVEL
+    document.context.own('bibliography').counter = 'section'
+    document.context.own('bibliography').level = Command.SECTION_LEVEL
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index bc78d57..8a956be 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -50,7 +50,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            document.context.own(bibliography).level = Base.section.level
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
diff --git a/plasTeX/Packages/report.py b/plasTeX/Packages/report.py
index b2e5d11..2320072 100644
--- a/plasTeX/Packages/report.py
+++ b/plasTeX/Packages/report.py
@@ -3,4 +3,4 @@ from plasTeX.Packages import book
 
 def ProcessOptions(options, document): # type: ignore
     book.ProcessOptions(options, document)
-    document.context['theequation'].format = '${equation}'
+    document.context.own('theequation').format = '${equation}'
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 09f334d..bfee262 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1533,8 +1533,14 @@ class ParameterCommand(Command):
             # Disable invoke() in parameters nested in our arguments.
             # We don't want them to invoke, we want them to set our value.
             ParameterCommand.enabled = False
-            type(self).value = self.parse(tex)['value']
+            value = self.parse(tex)['value']
             ParameterCommand.enabled = True
+            self.setValue(value)
+
+    def setValue(self, value):
+        """ Set the value of the parameter in this document """
+        self.__class__ = self.ownerDocument.context.own(type(self))
+        type(self).value = value
 
     @classmethod
     def enable(cls):
@@ -1577,10 +1583,10 @@ class DimenCommand(RegisterCommand):
     value = dimen(0)
 
     def setlength(self, len):
-        type(self).value = dimen(len)
+        self.setValue(dimen(len))
 
     def addtolength(self, len):
-        type(self).value = dimen(type(self).value + len)
+        self.setValue(dimen(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1591,10 +1597,10 @@ class MuDimenCommand(RegisterCommand):
     value = mudimen(0)
 
     def setlength(self, len):
-        type(self).value = mudimen(len)
+        self.setValue(mudimen(len))
 
     def addtolength(self, len):
-        type(self).value = mudimen(type(self).value + len)
+        self.setValue(mudimen(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1605,10 +1611,10 @@ class GlueCommand(RegisterCommand):
     value = glue(0)
 
     def setlength(self, len):
-        type(self).value = glue(len)
+        self.setValue(glue(len))
 
     def addtolength(self, len):
-        type(self).value = glue(type(self).value + len)
+        self.setValue(glue(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1619,10 +1625,10 @@ class MuGlueCommand(RegisterCommand):
     value = muglue(0)
 
     def setlength(self, len):
-        type(self).value = muglue(len)
+        self.setValue(muglue(len))
 
     def addtolength(self, len):
-        type(self).value = muglue(type(self).value + len)
+        self.setValue(muglue(type(self).value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
-- 
2.43.0

